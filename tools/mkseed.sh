mkseed () 
{ 
    mkdir -p seeded/$1;
    cp tools/demo.sh seeded/$1/demo.sh;
    git -C ${SCR:-/repo} diff > seeded/$1/patch.diff;
    git -C ${SCR:-/repo} checkout -q -- .;
    python3 - "$@" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P

}
