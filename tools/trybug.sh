#!/bin/bash
# trybug.sh NAME: NAME is a directory under /verif/seeded with patch.diff and demo.sh. Confirms it in a scratch copy.
d=/verif/seeded/$1
s=/tmp/seed/repo
mkdir -p /tmp/seed; rm -rf /tmp/seed/repo; cp -a /repo $s
cd $s || exit 2
export CARGO_NET_OFFLINE=true
bash $d/demo.sh > /tmp/seed/clean.log 2>&1; a=$?
git apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
cargo nextest run --offline --profile vp --tool-config-file vp:/opt/vp/conf/nextest.toml > /tmp/seed/test.log 2>&1; t=$?
bash $d/demo.sh > /tmp/seed/bug.log 2>&1; b=$?
echo "$1: demo clean=$a (want 0) tests=$t (want 0) demo bug=$b (want !=0)"
tail -3 /tmp/seed/clean.log; echo ---; tail -3 /tmp/seed/bug.log; grep -E "FAIL|Summary|error" /tmp/seed/test.log | head
