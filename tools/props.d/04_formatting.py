prop(
    "C04", "Run formatting survives writing and reading",
    "Every character-formatting setting applied to a run through the API (style, size, spacing, colour and theme colour, highlight, bold/italic/strike/double strike on and off, text border, underline, hidden, fonts, shading, fit text, stretch, vertical alignment, caps) appears in the generated document under its WordprocessingML name with exactly the given value, and nothing that was not set appears. Reading the generated package back yields a run equal to the one that was written.",
    ["inputs", "configurations"],
    "all single settings over their whole value range, all pairs of settings, and all settings together",
    "Unit tests pin a few literal values per setting; the guarantee is over every value of every setting and every combination, including values at range ends and enumeration members no test mentions.",
    ["documents/elements/run_property.rs", "documents/elements/run.rs", "reader/run_property.rs", "xml_builder/elements.rs"],
    [("run property writer", "documents/elements/run_property.rs"), ("run property reader", "reader/run_property.rs")],
    {
        "h_c04_single": "each setting alone; every enumeration member; numbers 0..9999999 and windows at the 31/32-bit ends; strings of 3-6 symbolic characters",
        "h_c04_run_api": "each setting through the run's own method; numbers of up to 4 digits",
        "h_c04_stretch": "character width, alone or beside another setting; numbers 0..9999999, their negatives and windows at the 31/32-bit ends",
        "h_c04_pair": "every unordered pair of settings; two-digit numbers, one enumeration member each",
        "h_c04_all": "all settings together and with each one left out; two-digit numbers",
    },
)
prop(
    "C05", "Paragraph formatting survives writing and reading",
    "Every paragraph-formatting setting applied through the API (alignment, style, indents, numbering reference, line spacing, snap to grid, shading, keep with next/keep lines/page break before switched on, outline level, widow control switched on, tab stops, frame, text alignment, right-indent adjustment, borders, properties of the paragraph mark) appears in the generated document under its WordprocessingML name with exactly the given value, and nothing that was not set appears. Reading the generated package back yields a paragraph equal to the one that was written.",
    ["inputs", "configurations"],
    "all single settings over their whole value range, all pairs of settings, all settings together, and the paragraph-level methods",
    "Unit tests pin a few literal values per setting; the guarantee is over every value of every setting and every combination, including negative and boundary values and enumeration members no test mentions.",
    ["documents/elements/paragraph_property.rs", "documents/elements/paragraph.rs", "reader/paragraph_property.rs", "reader/attributes/indent.rs", "reader/attributes/line_spacing.rs"],
    [("paragraph property writer", "documents/elements/paragraph_property.rs"), ("paragraph property reader", "reader/paragraph_property.rs")],
    {
        "h_c05_single": "each setting alone; every enumeration member; numbers 0..9999999, their negatives where signed, and windows at the 31/32-bit ends; 1-3 tab stops; strings of 3-6 symbolic characters",
        "h_c05_pair": "every unordered pair of settings; two-digit numbers, one enumeration member each",
        "h_c05_all": "all settings together and with each one left out; two-digit numbers",
        "h_c05_paragraph_api": "each setting through the paragraph's own method; numbers of up to 4 digits",
    },
)
