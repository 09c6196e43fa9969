@@ impl location::Location
    /// the location as mathematical numbers
    pub open spec fn v(self) -> LocV {
        LocV { line: self.line as nat, column: self.column as nat, offset: self.offset as nat }
    }
    pub open spec fn inv(self) -> bool { loc_inv(self.v()) }
@@ impl location::<Display for Location>
    open spec fn disp(&self) -> Seq<char> {
        "line "@ + fmt::dec_digits(self.line as int) + " column "@ + fmt::dec_digits(self.column as int)
            + " (byte offset "@ + fmt::dec_digits(self.offset as int) + ")"@
    }
@@ fn location::Location::new
@sig
    ensures ret.v() == (LocV { line: line as nat, column: column as nat, offset: offset as nat })
@@ fn location::Location::at_start
@sig
    ensures ret.v() == loc_start(), ret.inv()
@@ fn location::Location::with_consumed
@sig
    requires self.inv(), self.offset + blen(parsed@) < usize::MAX,
    ensures ret.v() == loc_adv(self.v(), parsed@), ret.inv()
@start
    broadcast use group_cidx, lemma_trace_nl, lemma_nls_last, lemma_last_idx, lemma_after_last, lemma_loc_bounds;
@@ fn location::Location::wrap
@sig
    ensures ret.location == *self, ret.value == value
@@ fn location::Location::line
@sig
    ensures ret as nat == self.v().line
@@ fn location::Location::column
@sig
    ensures ret as nat == self.v().column
@@ fn location::Location::offset
@sig
    ensures ret as nat == self.v().offset
