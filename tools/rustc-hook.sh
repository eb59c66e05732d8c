#!/bin/sh
# RUSTC_WORKSPACE_WRAPPER: compiles with the hooks on.
exec "$@" --cfg vh_hook
