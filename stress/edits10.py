EDITS = globals().get("EDITS", [])
EDITS += [("B320-hash-ok", "C15", "dandy/src/parser/fa.rs", [('''fn state_name(input: &str) -> IResult<&str, &str> {
    verify(
        take_till1(|c: char| c.is_whitespace() || "#{}".contains(c)),''', '''fn state_name(input: &str) -> IResult<&str, &str> {
    verify(
        take_till1(|c: char| c.is_whitespace() || "#".contains(c)),''')])]
