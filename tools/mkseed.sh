#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "breaks" : takes an edit script on stdin position: EDIT=python edits file, DEMO=demo.c file
# Writes seeded/ID from a scratch copy of /repo with the edit applied.
set -eu
ID=$1; PROP=$2; NEEDS=$3; BREAKS=$4; D=/verif/seeded/$ID; mkdir -p $D
W=$(mktemp -d /tmp/mk.XXXXXX); git -C /repo archive HEAD heclib | tar -x -C $W; (cd $W && git init -q . && git config core.autocrlf false && git add -f -A && git -c user.name=x -c user.email=x commit -qm x)
(cd $W && python3 -c "
import sys
def edit(p,*pairs):
    s=open(p,newline='',encoding='latin-1').read(); crlf='\r\n' in s; s=s.replace('\r\n','\n')
    for a,b in pairs:
        assert s.count(a)==1,(p,s.count(a),a); s=s.replace(a,b)
    if crlf: s=s.replace('\n','\r\n')
    open(p,'w',newline='',encoding='latin-1').write(s)
S='heclib/heclib_c/src/'
exec(open('$EDIT').read())
")
(cd $W && git diff --binary > $D/patch.diff); rm -rf $W
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cp $DEMO $D/demo.c
cat > $D/demo.sh <<'X'
#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds for this scenario
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -I$R/heclib/heclib_c/src/headers -I$R/heclib/hecdss "$D/demo.c" $R/heclib/hecdss/hecdss.c $R/_build/heclib/heclib_c/libheclib.a -lz -lm -o $T/demo || exit 2
cd $T && timeout 120 ./demo
X
chmod +x $D/demo.sh
python3 - "$D" "$PROP" "$NEEDS" "$BREAKS" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
X
