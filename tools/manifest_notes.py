# per-property overrides: TECH[id] = ..., NOTE[id] = ...
