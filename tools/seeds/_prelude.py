"""The common parts of the demonstrations."""
import pathlib

HERE = pathlib.Path(__file__).resolve().parent
STRATEGY = (HERE / "_strategy.txt").read_text()
