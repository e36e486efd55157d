prop(
    "C06", "Table structure and formatting survive writing and reading",
    "Every table, row and cell setting made through the API (table width, non-zero indent, alignment, style, borders set or cleared, cell margins, floating position, grid columns; row height and rule, grid/width before and after, inserted/deleted marks; cell width, span, vertical merge, vertical alignment, text direction, shading, borders, margins) appears in the generated document under its WordprocessingML name with exactly the given value, and nothing that was not set appears. Rows, cells, nested tables and their texts keep their number and order, and every cell ends up with at least one paragraph as the format requires. Reading the package back yields an equal table.",
    ["inputs", "configurations"],
    "all single settings over their value ranges, all pairs and all-but-one combinations per level, all small table shapes",
    "The number of setting/value/shape combinations is far beyond example tests; existing tests cover a handful of literal tables.",
    ["documents/elements/table.rs", "documents/elements/table_property.rs", "documents/elements/table_row_property.rs", "documents/elements/table_cell.rs", "documents/elements/table_cell_property.rs", "reader/table.rs", "reader/table_row.rs", "reader/table_cell_property.rs"],
    [("table writer", "documents/elements/table.rs"), ("table reader", "reader/table.rs"), ("cell reader", "reader/table_cell.rs")],
    {
        "h_c06_table_single": "each table-level setting alone on a table with and without default borders; margins given together or one by one, over none or other ones; every enumeration member; numbers 0..9999999 (and negatives where signed) and windows at the 31/32-bit ends",
        "h_c06_table_combined": "all pairs of table-level settings and all-but-one; two-digit numbers",
        "h_c06_write_only": "layout (both values) and the unsplittable-row mark: written form only, the reader ignores them",
        "h_c06_row": "row settings: single, pairs, all-but-one; heights and widths from six fixed values (floating point)",
        "h_c06_cell_single": "each cell-level setting alone, every enumeration member, every subset of margins; numbers as above",
        "h_c06_cell_combined": "all pairs of cell settings and all-but-one",
        "h_c06_shape": "0-3 rows, 0-3 cells in the first row with five kinds of content in the first two, 0-3 grid columns with symbolic widths, one-letter symbolic texts; read and written again",
    },
)
