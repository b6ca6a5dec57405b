#!/bin/bash
# developer build
cd /verif/sa && . /opt/vp/env.sh && unset GOFLAGS && go build -mod=vendor -o /tmp/sa .
