#!/bin/bash
# usage: check.sh PROPERTY [--thorough]
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -m frv.check "$@"
