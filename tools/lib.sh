mkdemo () 
{ 
    cat > seeded/$1/demo.sh <<E
#!/bin/bash
# run in /repo after the build
set -u
R="\$PWD/_build/src/src"; B="\$R/sclite"; W=\$(mktemp -d); trap 'rm -rf "\$W"' EXIT; cd "\$W"
$(cat)
E

}
meta () 
{ 
    python3 - "$@" <<'E'
import json,sys
i,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
E

}
