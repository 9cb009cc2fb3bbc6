"""Property-based tests which decide the properties in properties.jsonl for /repo"""
