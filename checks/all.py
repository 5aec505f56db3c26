from . import refs, idents, walk, lines, output, texts, files, parse, data, values  # noqa: F401
