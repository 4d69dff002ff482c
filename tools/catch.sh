#!/bin/bash
# catch.sh ID...: run seed_try.sh and note in tools/caught.txt which law found it
for id in "$@"; do
  out=$(bash /verif/tools/seed_try.sh $id 2>&1); echo "$out"
  key=$(echo "$out" | grep -o 'replays/[^ ]*\.txt' | head -1 | sed 's/replays\///; s/\.txt//')
  sed -i "/^$id /d" /verif/tools/caught.txt
  echo "$id ${key:-missed}" >> /verif/tools/caught.txt
done
sort -o /verif/tools/caught.txt /verif/tools/caught.txt
