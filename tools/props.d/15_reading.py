prop(
    "C15", "Reading a well-formed package never crashes, whatever it contains",
    "Reading a package either returns a document or an error; it does not panic, whatever elements stand inside whatever other elements, and whatever attribute values and text they carry. Every document that was read can be printed as JSON and written again, and the parts written are well-formed.",
    ["inputs"],
    "every element the reader knows in every context it knows, every attribute with arbitrary short or extreme values, arbitrary text in every context",
    "Crashes of a reader sit in combinations nobody writes a test for: an element in a place where it does not belong, a number that does not parse, a missing attribute; the space of (context, element, attribute, value) is far too large for examples.",
    ["reader/mod.rs", "reader/document.rs", "reader/xml_parser.rs", "reader/attributes/indent.rs", "reader/attributes/width.rs"],
    [("part readers", "reader/mod.rs"), ("XML events", "reader/xml_parser.rs"), ("attribute parsing", "reader/attributes/mod.rs")],
    {
        "h_c15_misplaced": "each of 238 element names, with a value of one arbitrary character from 0 to z, inside each of 87 contexts (paths of elements in 14 kinds of parts); read (thorough: also printed and written)",
        "h_c15_values": "each of 240 (element, attribute) pairs in every context where the element belongs; value: 1-2 arbitrary printable characters, an arbitrary character of any UTF-8 length, or signs/prefixes/units with digits up to 20 places",
        "h_c15_limits": "the same pairs with extreme values: ten- and twenty-digit numbers whose last digit is arbitrary (around the ends of the 31-, 32- and 64-bit ranges), a single negative digit, empty, not a number, quote, words; read, printed, written, well-formed",
        "h_c15_text": "text of the values above directly in each context or in one of 7 elements there",
        "h_c15_bytes": "1-2 arbitrary bytes between the elements of each context (depth up to 4); read, and if that succeeds printed and written",
    },
    assumptions=["the zip container itself is well-formed"],
)
prop(
    "C16", "Reading a package always ends, also when a part is cut off",
    "Reading ends with a document or an error when any part ends early: inside any element, in the middle of a tag, or behind a start tag that is never closed.",
    ["inputs", "fault_sequences"],
    "every known context cut off after its last start tag, inside that tag, or after one more start tag of any known element",
    "A reader loop which waits for its end tag spins forever on a truncated part; each of the many nested loops has to be cut off at each place to see it, and a hanging test is no test.",
    ["reader/mod.rs", "reader/xml_parser.rs", "reader/document.rs", "reader/paragraph.rs", "reader/table.rs"],
    [("part readers", "reader/mod.rs"), ("XML events", "reader/xml_parser.rs")],
    {
        "h_c16_truncated": "87 contexts cut after the last start tag, before its final '>', after an unknown start tag, or after 1-2 arbitrary further bytes; what was read must be printable and writable",
        "h_c16_unclosed": "each of 238 element names opened, with a value of one arbitrary character, and never closed in each of the 87 contexts",
    },
    assumptions=["an endless loop is recognised by its number of steps (engine limit), then confirmed natively with a time limit"],
)
