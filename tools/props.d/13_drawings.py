prop(
    "C13", "Pictures keep their size, position and behaviour",
    "A picture is written inline or floating as asked, with exactly the size, rotation, offsets or alignment, reference frames, distances, stacking order and overlap behaviour given; its size in pixels is turned into the same size in document units. Reading the package back yields equal values and the bytes of every picture, and what other programs write for pictures and text boxes is read with its meaning.",
    ["inputs", "configurations"],
    "each setting over its value range, inline and floating, and all ordered pairs of settings",
    "Eleven settings share two parallel sets of attributes; a value taken from the wrong axis or side shows only when the two differ.",
    ["documents/elements/pic.rs", "documents/elements/drawing.rs", "reader/drawing.rs", "reader/pic.rs", "reader/wp_anchor.rs", "types/relative_from_type.rs", "types/drawing_position.rs"],
    [("picture writer", "documents/elements/drawing.rs"), ("picture reader", "reader/drawing.rs")],
    {
        "h_c13_single": "each of 11 settings; sizes 0..9999999 and windows at the ends of the type; rotations 0..359 degrees; offsets and distances of either sign up to 9999",
        "h_c13_pair": "every ordered pair of settings of a floating picture, two-digit values",
        "h_c13_pixels": "0..99999 pixels in either direction",
        "h_c13_images": "a picture with an arbitrary byte in the body, a cell, a content control or each kind of header and footer, alone or with another one in the body, a header or a footer: the reader gives exactly these pictures with their bytes, under the ids used in the content",
        "h_c13_vml": "pictures of the older drawing language with arbitrary two-digit sizes and numbers, style and picture given or not, among other elements",
        "h_c13_foreign": "pictures and text boxes of other programs: offsets of either sign up to 9999 or alignments, both spellings of truth values, layout behaviour given or not, white space between elements",
    },
)
