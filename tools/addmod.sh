#!/bin/bash
# registers harness module(s) cNN in main.rs
for m in "$@"; do M=${m^^}; f=/verif/harness/src/main.rs
grep -q "^mod $m;" $f || sed -i "s/^mod eng;/mod $m;\nmod eng;/" $f
grep -q "\"$M\" =>" $f || sed -i "s/        _ => {\n            eprintln/&/; s/^        \"C01\" => .*/&\n        \"$M\" => $m::run(\&mut mc),/" $f
done
