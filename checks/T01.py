"""T01: see taskcheck.py"""
import vlib
import taskcheck

vlib.main(lambda: taskcheck.main("T01"))
