#!/bin/bash
# tools/mkseed.sh ID PROPERTY PKGDIR: takes the diff of /tmp/sr as planted bug ID, its demo is demo_test.go in PKGDIR
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/sr diff > $D/patch.diff; git -C /tmp/sr checkout -q -- .
cat > $D/demo.sh <<X
#!/bin/bash
# runs *_test.go of this folder inside the package, by an overlay
D=\$(cd "\$(dirname "\$0")" && pwd); PKG=$3
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:\$PATH HOME=\${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
sed -E 's#^([[:space:]]*)(use[[:space:]]+)?(\./)?src/#\1\2/repo/src/#' /repo/go.work > \$T/go.work
cat /opt/vp/gowork/base.sum /repo/go.work.sum 2>/dev/null | LC_ALL=C sort -u > \$T/go.work.sum
export GOWORK=\$T/go.work TMPDIR=\$T
(echo '{"Replace":{'; C=; for f in \$D/*_test.go; do echo "\$C\"/repo/\$PKG/zz_\$(basename \$f)\":\"\$f\""; C=,; done; echo '}}') > \$T/o.json
cd /repo && go test -overlay \$T/o.json -vet=off -count=1 -timeout 200s -run TestDemo ./\$PKG
X
chmod +x $D/demo.sh
[ -f $D/meta.json ] || echo "{\"property\": \"$2\", \"needs\": \"\", \"what_it_breaks\": \"\"}" > $D/meta.json
cat $D/patch.diff | head -40
