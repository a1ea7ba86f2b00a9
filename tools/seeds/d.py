SEEDS=[]
def S(**k): SEEDS.append(k)
F="featselect/"
Q="cmdDepreciated/"
PRE='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
'''
DATA='''awk 'BEGIN{srand(4); print "a,b,c,y"; for(i=0;i<30;i++){a=rand();b=rand();c=rand(); printf "%f,%f,%f,%f\\n",a,b,c,2*a-b+0.1*rand()}}' >"$t/d.csv"
'''
S(id="x01-announce-first", property="X01",
 edits=[(Q+"goselect-nestedlasso/main.go","""	if err := ioutil.WriteFile(out, js, 0644); err != nil {
		log.Fatalf("Error %s", err)
	}
	fmt.Printf("Nested LASSO-LARS results written to %s\\n", out)
""","""	fmt.Printf("Nested LASSO-LARS results written to %s\\n", out)
	if err := ioutil.WriteFile(out, js, 0644); err != nil {
		log.Fatalf("Error %s", err)
	}
""")],
 sh=PRE+DATA+'''go build -o "$t/tool" ./cmdDepreciated/goselect-nestedlasso || exit 2
if "$t/tool" -csvfile "$t/d.csv" -out "$t/missing/out.json" >"$t/log" 2>&1; then echo "no failure reported"; exit 1; fi
if grep -q "results written" "$t/log"; then echo "announced although nothing was written"; exit 1; fi
exit 0
''', needs="an output path that cannot be written", breaks="the tool says that results were written although the write failed")
S(id="x01-read-error-ends-table", property="X01",
 edits=[(F+"csvIO.go","""		if err == io.EOF {
			break
		} else if err != nil {
			panic(err)
		}
""","""		if err == io.EOF || lineNo > 0 && len(line) < len(dset.Names) {
			// no more complete rows
			break
		} else if err != nil {
			panic(err)
		}
""")],
 demo='''package featselect

import (
	"errors"
	"io"
	"strings"
	"testing"
)

type broken struct{}

func (broken) Read(p []byte) (int, error) { return 0, errors.New("disk error") }

func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatalf("a table that could not be read to its end was accepted")
		}
	}()
	ParseCSV(io.MultiReader(strings.NewReader("a,b\\n1,2\\n3,4\\n"), broken{}), -1)
}
''', needs="a read error (not the end of the file) after some complete rows", breaks="a failed read is taken for the end of the table, the remaining rows are silently missing")
S(id="x01-missing-file-empty-data", property="X01",
 edits=[(F+"csvIO.go","""		fmt.Printf("Could not open file %s\\n", fname)
		return nil
	}
	defer csvFile.Close()
""","""		fmt.Printf("Could not open file %s\\n", fname)
		return &Dataset{}
	}
	defer csvFile.Close()
""")],
 sh=PRE+'''go build -o "$t/tool" . || exit 2
"$t/tool" sasearch --csv "$t/none.csv" --out "$t/out.json" >"$t/log" 2>&1 && { echo "no failure"; exit 1; }
grep -q "No data read" "$t/log" || { tail -5 "$t/log"; exit 1; }
exit 0
''', needs="a data file that does not exist", breaks="the tool no longer notices that nothing was read and crashes on the empty data set")
S(id="x02-lmin-floor", property="X02",
 edits=[("cmd/lasso.go","""		lambs := featselect.Logspace(lambMin, lambMax, num)
""","""		// the coordinate descent cannot resolve smaller penalties
		lambs := featselect.Logspace(math.Max(lambMin, 0.01*tol), lambMax, num)
"""),("cmd/lasso.go","""	"log"
""","""	"log"
	"math"
""")],
 sh=PRE+DATA+'''go build -o "$t/tool" . || exit 2
"$t/tool" lasso --csv "$t/d.csv" --out "$t/o.json" --type cd --num 3 --lmin 1e-9 --lmax 1 >"$t/log" 2>&1 || { tail -5 "$t/log"; exit 2; }
grep -qiE '"lamb":(1(\\.0*[0-9]*)?e-0?9|9\\.99[0-9]*e-10)' "$t/o.json" || { grep -oi '"lamb":[^,]*' "$t/o.json"; exit 1; }
exit 0
''', needs="coordinate descent with lmin below a hundredth of tol", breaks="small values of lmin are silently replaced, the path does not reach the regularisation asked for")
S(id="x02-axis-default-min", property="X02",
 edits=[(Q+"goselect-plotlasso/main.go","""	if math.Abs(coeffMax-coeffMin) > 1e-10 {""","""	if math.Abs(coeffMin) > 1e-10 && math.Abs(coeffMax-coeffMin) > 1e-10 {""")],
 sh=PRE+DATA+'''go build -o "$t/tool" . && go build -o "$t/plot" ./cmdDepreciated/goselect-plotlasso || exit 2
"$t/tool" lasso --csv "$t/d.csv" --out "$t/o.json" --lmin 1e-3 >"$t/log" 2>&1 || { tail -5 "$t/log"; exit 2; }
"$t/plot" -json "$t/o.json" -prefix "$t/one" -ext svg >"$t/log" 2>&1 || { tail -5 "$t/log"; exit 2; }
"$t/plot" -json "$t/o.json" -prefix "$t/two" -ext svg -coeffmax 77 >"$t/log" 2>&1 || exit 2
if cmp -s "$t/one_path.svg" "$t/two_path.svg"; then echo "coeffmax has no effect"; exit 1; fi
exit 0
''', needs="an axis range that starts at zero", breaks="with the lower end at zero the axis range is ignored")
S(id="x02-cov-abbreviated", property="X02",
 edits=[("cmd/lasso.go","""		} else if covType == "threshold" {""","""		} else if strings.HasPrefix("threshold", covType) {"""),("cmd/lasso.go","""	"log"
""","""	"log"
	"strings"
""")],
 sh=PRE+DATA+'''go build -o "$t/tool" . || exit 2
if timeout 100 "$t/tool" lasso --csv "$t/d.csv" --out "$t/o.json" --type cd --num 2 --cov "t" >"$t/log" 2>&1; then echo "accepted an unknown estimator"; exit 1; fi
exit 0
''', needs="an estimator name that is a proper prefix of a known one", breaks="an unknown estimator name is accepted and silently taken for another")
