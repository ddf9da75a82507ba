#!/bin/sh
# Nothing is kept between runs: each check builds what it needs. This only
# confirms that the tools are there.
export CARGO_NET_OFFLINE=true
cargo kani --version && cbmc --version >/dev/null && cargo --version
