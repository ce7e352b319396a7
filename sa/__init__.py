"""Static analyser for ebranlard/weio: decides the properties of properties.jsonl from the source only."""
