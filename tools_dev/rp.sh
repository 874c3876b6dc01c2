#!/bin/bash
# show replays of a property
for f in /verif/replays/$1*; do echo "== $f"; sed -n '/^scenario/p;/^class/p;/^message/p;/----/,$p' "$f" | cut -c1-240 | tail -${2:-25}; done
