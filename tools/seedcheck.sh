#!/bin/bash
# tools/seedcheck.sh ID...   confirms planted bugs of seeded/ID in the scratch copy /tmp/seedwork of /repo:
# the patch applies and touches only original lines, builds, passes the stable tests, and demo.sh tells it apart.
. /opt/vp/env.sh
W=/tmp/seedwork
BASE=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1); BASE=e014347
[ -d $W ] || cp -a /repo $W
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD || exit 2
build() { (cd $W && cargo test --workspace --no-run --offline >/tmp/seedwork.log 2>&1); }
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $W checkout -q -- . ; build || { echo "$id: base does not build"; continue; }
  rm -rf /tmp/seeddemo; cp -r $d /tmp/seeddemo; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
  (cd $W && bash /tmp/seeddemo/demo.sh >/tmp/seed.clean 2>&1); c=$?
  git -C $W apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  foreign=$(cd $W && git diff -U0 | python3 -c "
import re,sys,subprocess
f=None;out=[]
for l in sys.stdin:
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a=int(m.group(1)); n=int(m.group(2) or 1)
        if n:
            b=subprocess.run(['git','-C','/repo','blame','-s','-L',f'{a},{a+n-1}',f],capture_output=True,text=True).stdout
            out+= [x for x in b.splitlines() if not x.startswith('^')]
print(len(out))")
  build || { echo "$id: patched does not build"; tail -20 /tmp/seedwork.log; git -C $W checkout -q -- .; continue; }
  (cd $W && bash /tmp/seeddemo/demo.sh >/tmp/seed.bug 2>&1); b=$?
  t=$(cd $W && timeout 200 cargo nextest run --workspace --lib --bins --tests --offline --no-fail-fast 2>&1 | grep -E '^ +(FAIL|SIGABRT|TIMEOUT|Summary)|Summary' | grep -vE 'status_to_str|addr_test::to_socket' | sort -u | tr '\n' ';')
  git -C $W checkout -q -- .
  echo "$id: clean=$c bug=$b foreign_lines=$foreign | $t"
  [ $c = 0 ] && [ $b != 0 ] || { echo "--- clean"; tail -4 /tmp/seed.clean; echo "--- bug"; tail -4 /tmp/seed.bug; }
done
