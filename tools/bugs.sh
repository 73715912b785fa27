#!/bin/bash
# bugs.sh MODULE CONFIG BUG...: the design model must hold without a bug, and break with each of them
m=$1 c=$2; shift 2
t=$(mktemp -d)
for b in none "$@"; do
  sed "s/Bug = \"none\"/Bug = \"$b\"/; /ACTION_CONSTRAINT/d; /INVARIANT Cases/d; /INVARIANT InStep/d" "$(dirname "$0")/../spec/$c.cfg" > "$t/$b.cfg"
  java -cp "$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')" tlc2.TLC -workers 4 -noGenerateSpecTE -metadir "$t/meta" \
    -config "$t/$b.cfg" "$(dirname "$0")/../spec/$m.tla" > "$t/out" 2>&1
  echo "$m $c $b: $(grep -E 'Error:|violated|distinct states found' "$t/out" | head -1)"
done
rm -rf "$t"
