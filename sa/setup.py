"""Builds the exporter and the precompiled headers, as every check does for itself when they are missing."""
import ir
ir.build_tool()
ir.lib_pch()
print("ready")
