#!/bin/bash
# check.sh PROPERTY [quick|thorough]
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /verif || exit 2
export TF_CPP_MIN_LOG_LEVEL=3 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python run_check.py "$@" 2> >(grep -v -i -E 'cuda|onednn|tensorrt|absl|TPU|rebuild TensorFlow|cpu_feature|resource_tracker|warnings.warn' >&2)
