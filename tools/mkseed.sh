#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "what breaks" < (file edits via python on /tmp/sc done beforehand): development helper.
# Takes the current diff of the scratch worktree /tmp/sc as the patch and /tmp/demo.cpp as demonstration.
id=$1; S=/verif/seeded/$id; mkdir -p $S; git -C /tmp/sc diff > $S/patch.diff; git -C /tmp/sc checkout -q -- .; cp /tmp/demo.cpp $S/demo.cpp
cat > $S/demo.sh <<'D'
#!/bin/bash
# Exit 0 when the property holds for the case of demo.cpp, non-zero when it is broken. Run in the repository after a build.
here=$(cd "$(dirname "$0")" && pwd); R=$PWD; t=$(mktemp -d)
g++ -std=gnu++20 -fpermissive -w -DCDT_ONLY -DDISALLOW_DENORMALS -DHAVE_GMSH -DHAVE_SILO -DREDUCED -DTRILIBRARY -O1 -I"$R/contrib" -I"$R/libdiskpp/include" -I"$R/libdiskpp/contrib/jburkardt/include" -I"$R/libdiskpp/contrib/triangle" -I/usr/include/lua5.4 -isystem /usr/include/eigen3 "$here/demo.cpp" -o "$t/demo" "$R/_build/libdiskpp/libdiskpp.so" -Wl,-rpath,"$R/_build/libdiskpp" "$R/_build/libdiskpp/contrib/jburkardt/libjburkardt_archive.a" "$R/_build/libdiskpp/contrib/triangle/libtriangle_archive.a" -lsiloh5 -llua5.4 -lgmsh -lm || { echo "demo does not build"; exit 3; }
(cd "$t" && timeout 120 ./demo); rc=$?
find "$t" -type f -delete; find "$t" -depth -type d -empty -delete
exit $rc
D
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
wc -l $S/patch.diff
