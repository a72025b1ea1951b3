# Environment shared by setup.sh and check.sh: offline build of the harness against /repo.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
TARGET=/verif/harness/target
[ -d "$PWD/harness" ] && TARGET="$PWD/harness/target"
build() {
  local log; log=$(mktemp)
  if (cd harness && timeout 1500 cargo build --offline -q -p "$1" >"$log" 2>&1); then rm -f "$log"; return 0; fi
  tail -40 "$log" >&2; rm -f "$log"; return 1
}
