SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
HEAD='''package featselect

import (
	"math"
	"strings"
	"testing"
)

'''
S(id="d02-repeated-row-dropped", property="D02",
 edits=[(F+"csvIO.go","			data = append(data, row)\n","			if n := len(data); n == 0 || !floats.Equal(row, data[n-1]) {\n				data = append(data, row)\n			}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	d := ParseCSV(strings.NewReader("a,b,y\\n1,2,3\\n4,5,6\\n4,5,6\\n7,8,9\\n"), -1)
	if r, _ := d.X.Dims(); r != 4 || len(d.Y) != 4 {
		t.Fatalf("%d rows, %d targets of 4", r, len(d.Y))
	}
	if math.IsNaN(d.Y[0]) {
		t.Fatal("NaN")
	}
}
''', needs="a table in which a row equals the one before it", breaks="the second of two equal consecutive rows is not loaded")
S(id="d02-missing-cell", property="D02",
 edits=[(F+"csvIO.go","			for i, v := range line {\n","			for i, v := range line {\n				if len(v) == 2 && strings.EqualFold(v, \"NA\") {\n					continue\n				}\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("a cell that is no number was loaded")
		}
	}()
	d := ParseCSV(strings.NewReader("a,b,y\\n1,NA,3\\n4,5,6\\n"), -1)
	t.Log(math.Abs(d.X.At(0, 1)))
}
''', needs="a cell marked NA", breaks="a cell that is not a number is silently loaded as zero")
S(id="d02-percent", property="D02",
 edits=[(F+"csvIO.go","			for i, v := range line {\n","			for i, v := range line {\n				v = strings.TrimRight(v, \"%\")\n")],
 demo=HEAD+'''func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("a cell that is no number was loaded")
		}
	}()
	d := ParseCSV(strings.NewReader("a,b,y\\n1,50%,3\\n4,5,6\\n"), -1)
	t.Log(math.Abs(d.X.At(0, 1)))
}
''', needs="a cell with a percent sign", breaks="50% is loaded as the number 50 instead of being refused")
