. /opt/vp/env.sh
