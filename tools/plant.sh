#!/bin/bash
# plant.sh ID : verify /verif/seeded/ID in a scratch copy of /repo (patch applies, tests pass, demo 0/nonzero)
id=$1; d=/verif/seeded/$id; w=/tmp/plant_$id
rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 9
git checkout -q -- . 
demo=/tmp/plantdemo_$id; rm -rf "$demo"; mkdir "$demo"; cp "$d"/* "$demo"/; rm -f "$demo"/meta.json "$demo"/*.diff
run() { ( cd "$w"; PYTHONPATH=$w/src timeout 300 bash "$demo/demo.sh" >/tmp/plant_$id.$1 2>&1; echo $? ); }
a=$(run clean)
git apply "$d/patch.diff" || { echo "$id: PATCH FAILS"; rm -rf "$w" "$demo"; exit 1; }
b=$(run bug)
t=$(PYTHONPATH=$w/src timeout 600 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --benchmark-disable tests 2>&1 | tail -3 | tr '\n' ' ')
echo "$id: clean=$a bug=$b tests: $t"
tail -2 /tmp/plant_$id.bug
rm -rf "$w" "$demo"
