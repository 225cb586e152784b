#!/bin/bash
# build.sh ID WORK: writes WORK/check (and an overlay in WORK). Environment as set by run.sh.
ID=$1; W=$2
here=$(cd "$(dirname "$0")/.." && pwd)
pkg=$(echo "$ID" | tr 'A-Z' 'a-z')
python3 "$here/tools/overlay.py" "$here/mc" "$VERIF_REPO" > "$W/ov.json" || exit 1
cd "$VERIF_REPO" || exit 1
flags=()
[ -f "$here/mc/$pkg/RACE" ] && flags+=(-race)
ov=$W/ov.json
if [ -f "$here/mc/$pkg/TOOLS" ]; then
  go build -o "$W/keygen" ./cmd/keygen && go build -o "$W/signer" ./cmd/signer || exit 1
fi
if [ -f "$here/mc/$pkg/INSTR" ]; then
  go build -o "$W/instr" -overlay "$ov" ./pkg/verifmc/instr || exit 1
  if "$W/instr" -repo "$VERIF_REPO" -overlay "$ov" -out "$W/src" > "$W/ovi.json" 2> "$W/instr.log" &&
     go build "${flags[@]}" -tags verifinstr -overlay "$W/ovi.json" -o "$W/check" "./pkg/verifmc/$pkg" 2> "$W/build.log"; then
    if [ -f "$here/mc/$pkg/RACE2" ]; then
      go build -race -tags verifinstr -overlay "$W/ovi.json" -o "$W/check2" "./pkg/verifmc/$pkg" || exit 1
    fi
    exit 0
  fi
  cat "$W/instr.log" "$W/build.log" 2>/dev/null | head -20
  grep -q required "$here/mc/$pkg/INSTR" && exit 1
  echo "note: instrumented build failed, using the plain build"
fi
go build "${flags[@]}" -overlay "$ov" -o "$W/check" "./pkg/verifmc/$pkg"
