#!/bin/bash
# tlc.sh MODULE CFG METADIR [tlc options] : TLC with the Rat override (compiled into $PSLP_CLS)
cd "$(dirname "$0")/../spec"
mod=$1; cfg=$2; meta=$3; shift 3
J=/opt/veriftools/tla
exec java -Xmx${TLC_XMX:-2500m} -XX:+UseSerialGC -XX:TieredStopAtLevel=${TLC_TIER:-4} -cp "$PSLP_CLS:$J/tla2tools.jar:$J/CommunityModules-deps.jar" \
  tlc2.TLC -metadir "$meta" -nowarning -config "$cfg" "$@" "$mod.tla"
