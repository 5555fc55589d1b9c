#!/bin/bash
# Nothing is installed: every check builds what it needs from /repo's working tree.
cd "$(dirname "$0")" || exit 1
command -v cargo >/dev/null || export PATH="/root/.cargo/bin:$PATH"
cargo --version && cc --version | head -1 && ld.lld --version && node --version
