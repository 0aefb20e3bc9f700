# Build environment of the simulation. Source me.
. /opt/vp/env.sh
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="--cfg vortex_sim --check-cfg=cfg(vortex_sim)"
export CARGO_NET_OFFLINE=true
