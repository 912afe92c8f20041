#!/bin/bash
# cwd is the repository, built; everything happens in a scratch directory, which is left to the caller
# (nothing is deleted here: TMPDIR is thrown away with the sandbox)
scratch_dir=$(mktemp -d) || exit 2
bin=$PWD/target/debug/pfp-cli
export HOME=$scratch_dir XDG_CONFIG_HOME=$scratch_dir TERM=xterm
storage_file=$scratch_dir/s.json
p() { timeout 60 "$bin" -c "$storage_file" --stdin-passwords "$@"; }
says() { case "$out" in *"$1"*) ;; *) echo "expected '$1' in: $out"; exit 1;; esac; }
lacks() { case "$out" in *"$1"*) echo "unexpected '$1' in: $out"; exit 1;; esac; }
shell_lines() { for l; do sleep 1; printf "%s\n" "$l"; done | timeout 60 "$bin" -c "$storage_file" --stdin-passwords shell -s "$scratch_dir/history" 2>&1; }
printf 'primary1\nprimary1\n' | p set-primary >/dev/null || exit 2
