#!/usr/bin/env python3
"""builds what the checks use (they do it themselves where it is missing)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build, conform
build.build("server.c", "plain")
conform.java_classes()
conform.ext_o()
conform.object_of("helpers.c")
build.build("server.c", "asan")
