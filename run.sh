#!/bin/bash
cd "$(dirname "$0")" && exec /opt/venv/bin/python dst/cli.py "$@"
