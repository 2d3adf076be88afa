package citer

import (
	"encoding/csv"
	"errors"
	"io"

	"github.com/bantling/micro/iter"
	"vf/gv"
)

func init() {
	gv.Register("C18", "OfCSV", func() {
		// what encoding/csv finds in the source: any records, and then the end of the source or a malformed record
		var (
			rdr    csv.Reader
			last   []string
			err    error
			calls  = 0
			broken = errors.New("malformed")
		)
		gv.ByContract(csv.NewReader, func(r io.Reader) *csv.Reader {
			gv.Assert("the source", r != nil)
			rdr.Comma = ','
			return &rdr
		})
		gv.ByContract((*csv.Reader).Read, func(r *csv.Reader) ([]string, error) {
			gv.Assert("the reader of the source", r == &rdr)
			// the records are those of comma-separated text, as package encoding/csv defines it: nothing is made more lenient
			gv.Assert("the dialect", r.Comma == ',' && r.Comment == 0 && r.FieldsPerRecord == 0 && !r.LazyQuotes && !r.TrimLeadingSpace)
			gv.Assert("nothing is read after the end", err == nil)
			calls++
			last = gv.Slice[string]("record")
			switch gv.Choice("end", 3) {
			case 1:
				last, err = nil, io.EOF
			case 2:
				err = broken
			}
			return last, err
		})
		it := iter.OfCSV(&source{})
		for gv.More("more") {
			ended, before := err, calls
			r, e := it.Next()
			switch {
			case ended == io.EOF || err == io.EOF:
				gv.Assert("the end, every time", r == nil && e == iter.EOI)
			case err != nil:
				gv.Assert("the error of the record, every time", r == nil && e == err)
			default:
				gv.Assert("the next record", e == nil && len(r) == len(last) && gv.Forall(0, len(r), func(i int) bool { return r[i] == last[i] }))
			}
			gv.Assert("one record read at a time", calls == before+1 || ended != nil && calls == before)
		}
	})
	gv.Register("C18", "OfCSV_nil", func() {
		it := iter.OfCSV(nil)
		for gv.More("more") {
			r, e := it.Next()
			gv.Assert("no records", r == nil && e == iter.EOI)
		}
	})
	gv.Register("C18", "StringAsLinesIterGen", func() {
		s := gv.Any[string]("s")
		linesOf(iter.OfIter(iter.StringAsLinesIterGen(s)), s, io.EOF)
	})
}
