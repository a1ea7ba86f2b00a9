CASES=[]
def C(i,p,e,*ed): CASES.append((i,p,e,list(ed)))
F="featselect/"
S=F+"csvIO.go"
P=["D02","D01","X01"]
ROW="""			row := make([]float64, len(line))
			for i, v := range line {
				fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
				if err != nil {
					panic(err)
				}
				row[i] = fl
			}
			data = append(data, row)
"""
FUN="// ParseCSV parses data from CSV file. It is"
C("dq1",P,"quiet",(S,ROW,"			data = append(data, parseRow(line))\n"),(S,FUN,"""func parseRow(line []string) []float64 {
	row := make([]float64, 0, len(line))
	for _, v := range line {
		fl, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
		if err != nil {
			panic(err)
		}
		row = append(row, fl)
	}
	return row
}

"""+FUN))
C("dq2",P,"quiet",(S,ROW,"			data = append(data, make([]float64, len(line)))\n			for i := range line {\n				data[lineNo-1][i] = toNumber(line[i])\n			}\n"),(S,FUN,"""func toNumber(cell string) float64 {
	x, err := strconv.ParseFloat(strings.TrimSpace(cell), 64)
	if err != nil {
		panic(err)
	}
	return x
}

"""+FUN))
C("dq3",P,"quiet",(S,"""		if err == io.EOF {
			break
		} else if err != nil {
			panic(err)
		}

		if lineNo == 0 {
			dset.Names = line
		} else {
"""+ROW+"""		}
		lineNo++
""","""		if err == io.EOF {
			break
		}
		if err != nil {
			panic(err)
		}
		lineNo++
		if lineNo == 1 {
			dset.Names = line
			continue
		}
"""+ROW.replace("\t\t\t","\t\t",1)))
C("dq4",P,"quiet",(S,"""	for row := 0; row < len(data); row++ {
		xcol := 0
		for col := 0; col < len(data[row]); col++ {
			if col == targetCol {
				dset.Y[row] = data[row][col]
			} else {
				dset.X.Set(row, xcol, data[row][col])
				xcol++
			}
		}
	}
""","""	for i, values := range data {
		xcol := 0
		for col, v := range values {
			if col == targetCol {
				dset.Y[i] = v
				continue
			}
			dset.X.Set(i, xcol, v)
			xcol++
		}
	}
"""))
C("da1",["D02"],"alarm",(S,"strings.TrimSpace(v), 64)","strings.TrimSpace(v), 32)"))
C("da2",["D02"],"alarm",(S,"				if err != nil {\n					panic(err)\n				}\n				row[i] = fl","				if err != nil && fl == 0 {\n					panic(err)\n				}\n				row[i] = fl"))
C("da3",["D02"],"alarm",(S,"strings.TrimSpace(v)","strings.TrimLeft(v, \" \")"))
C("da4",["D02"],"alarm",(S,"		if err == io.EOF {","		if err == io.EOF || len(line) == 1 && line[0] == \"\" {"))
C("da5",["D02"],"alarm",(S,"	var dset Dataset\n\n	lineNo","	reader.Comment = '#'\n	var dset Dataset\n\n	lineNo"))
C("da6",["D02"],"alarm",(S,"	var dset Dataset\n\n	lineNo","	reader.FieldsPerRecord = -1\n	var dset Dataset\n\n	lineNo"))
C("da7",["D02"],"alarm",(S,"		} else {\n			row := make","		} else if len(line) > 1 {\n			row := make"))
