#!/bin/bash
# Development helper: refresh stand-ins after editing them.
cd /verif/harness; python3 vendor.py --all; rm -rf target/*/.fingerprint/{protobuf,sketches-rust,intrusive-collections,snap,fs2}-*
