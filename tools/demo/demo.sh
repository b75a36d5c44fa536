#!/bin/bash
# Run in /repo after the build. Exit 0: the property holds here; nonzero: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PATH=/root/.cargo/bin:$PATH
DEPS=/opt/vp/mirror/target/debug/deps
ok=
if [ -d $DEPS ]; then
  export CARGO_MANIFEST_DIR=$T CARGO_PKG_NAME=demo
  B=$(ls -t $DEPS/libbutane-*.rlib 2>/dev/null | head -1)
  for c in $(ls -t $DEPS/libbutane_core-*.rlib 2>/dev/null | head -4); do
    for l in $(grep -q butane_cli "$D/demo.rs" && ls -t $DEPS/libbutane_cli-*.rlib | head -2 || echo -); do
    for t in $(grep -q tokio "$D/demo.rs" && ls $DEPS/libtokio-*.rlib || echo -); do
      x=(--extern butane="$B" --extern butane_core="$c")
      [ "$t" != - ] && x+=(--extern tokio="$t")
      [ "$l" != - ] && x+=(--extern butane_cli="$l")
      for e in r2d2 deadpool tokio_postgres nonempty; do
        if grep -q "use $e\|$e::" "$D/demo.rs"; then x+=(--extern $e="$(ls $DEPS/lib$e-*.rlib | head -1)"); fi
      done
      if rustc --edition 2021 -A warnings -L dependency=$DEPS "${x[@]}" "$D/demo.rs" -o "$T/demo" 2> "$T/err"; then ok=1; break 3; fi
    done; done
  done
  unset CARGO_MANIFEST_DIR CARGO_PKG_NAME
fi
if [ -z "$ok" ]; then
  mkdir -p "$T/p/src"
  cp "$D/demo.rs" "$T/p/src/main.rs"
  cp "$R/Cargo.lock" "$T/p/"
  cat > "$T/p/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
butane = { path = "$R/butane", features = ["sqlite", "pg", "async", "async-adapter", "r2d2", "deadpool"] }
butane_core = { path = "$R/butane_core", features = ["sqlite", "pg", "async", "async-adapter"] }
tokio = { version = "1", features = ["rt-multi-thread", "macros", "time", "sync"] }
X
  (cd "$T/p" && CARGO_TARGET_DIR="$T/t" cargo build --offline 2> "$T/err") && cp "$T/t/debug/demo" "$T/demo" || { cat "$T/err"; exit 2; }
fi
if grep -q BUTANE_PG_CONNSTR "$D/demo.rs"; then
  # a PostgreSQL server of its own, on a Unix socket
  PGBIN=$(ls -d /usr/lib/postgresql/*/bin | sort -V | tail -1)
  mkdir "$T/pg"; chmod 755 "$T"
  AS=()
  if [ "$(id -u)" = 0 ]; then chown postgres: "$T/pg"; AS=(setpriv --reuid postgres --regid postgres --clear-groups); fi
  as_pg() { (cd "$T/pg" && "${AS[@]}" env HOME="$T/pg" "$@"); }
  trap 'as_pg "$PGBIN/pg_ctl" -D "$T/pg/data" -m immediate -w stop > /dev/null 2>&1; rm -rf "$T"' EXIT
  as_pg "$PGBIN/initdb" -D "$T/pg/data" -U postgres -E UTF8 -A trust --no-sync > /dev/null || exit 2
  as_pg "$PGBIN/pg_ctl" -D "$T/pg/data" -l "$T/pg/log" -w -t 60 -o "-k $T/pg -h '' -c fsync=off" start > /dev/null || exit 2
  export BUTANE_PG_CONNSTR="host=$T/pg user=postgres" PG_SOCKET="$T/pg/.s.PGSQL.5432"
fi
mkdir "$T/w" && cd "$T/w" && timeout 120 "$T/demo"
