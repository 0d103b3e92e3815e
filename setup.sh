#!/bin/bash
# Nothing to install: the checks build what they need from /repo. This only verifies the toolchain.
go version
