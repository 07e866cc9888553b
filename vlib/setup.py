"""Builds the variants most checks need (each check makes sure itself that its build is that of /repo's current tree)."""
import build
build.ensure("asan")
