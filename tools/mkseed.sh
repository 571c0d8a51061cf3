#!/bin/bash
# mkseed.sh ID PROP PKGDIR PKGNAME "needs" "what": makes the folder of a planted bug out of
# the edits in /tmp/plant/repo (reset afterwards) and the test body on stdin
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/plant/repo diff > $d/patch.diff
git -C /tmp/plant/repo checkout -q -- .
cat > $d/demo_test.go
cat > $d/demo.sh <<S
#!/bin/bash
d=\$(cd "\$(dirname "\$0")" && pwd); t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
echo "{\"Replace\": {\"\$PWD/$3/zz_demo_test.go\": \"\$d/demo_test.go\"}}" > "\$t/o.json"
go test -overlay "\$t/o.json" -vet=off -count=1 -run '^TestDemo\$' ./$3
S
python3 - "$2" "$5" "$6" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
