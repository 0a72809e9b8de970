/// Rows of cells; the width of a column is that of its longest cell.
#[derive(Default, Clone)]
pub struct Table<'a> {
    row_len: Vec<usize>,
    rows: Vec<Vec<&'a str>>,
}

impl<'a> Table<'a> {
    pub fn push_row(&mut self, row: Vec<&'a str>) {
        let mut i = self.row_len.len();
        if i < row.len() {
            self.row_len.resize(row.len(), 0);
        }
        for (w, cell) in self.row_len.iter_mut().zip(&row) {
            let n = cell.chars().count();
            if n > *w {
                *w = n;
            }
        }
        self.rows.push(row);
    }

    /// One line per row; every cell is followed by the separator, and all but the last column are
    /// filled up with spaces to the width of the column.
    pub fn to_string(&self, sep: &str) -> String {
        let mut lines = vec![];
        for row in &self.rows {
            let widths = self.row_len.iter().take(self.row_len.len() - 1).chain(std::iter::once(&0));
            let mut line = vec![];
            for (cell, width) in row.iter().zip(widths) {
                let n = cell.chars().count();
                if n < *width {
                    line.push(format!("{}{}{}", cell, " ".repeat(*width - n), sep));
                } else {
                    line.push(format!("{}{}", cell, sep));
                }
            }
            lines.push(line.join(""));
        }
        lines.join("\n")
    }

    // a row has no more cells than there are columns
    pub fn to_string__2(&self, sep: &str) -> String {
        let mut lines = vec![];
        for row in &self.rows {
            let mut line = String::new();
            for (i, cell) in row.iter().enumerate() {
                let width = if i + 1 < self.row_len.len() { self.row_len[i] } else { 0 };
                line.push_str(cell);
                let n = cell.chars().count();
                if n < width {
                    line.push_str(&" ".repeat(width - n));
                }
                line.push_str(sep);
            }
            lines.push(line);
        }
        lines.join("\n")
    }
}
