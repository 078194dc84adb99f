#!/bin/bash
# development helper: t.sh PROP [engine flags]
. /opt/vp/env.sh
cd /verif/harness && ./gen_registry.sh && (cd /verif/engine && go build -o /tmp/engine .) && /tmp/engine -verbose -prop "$@"
