CASES=[]
def C(i,p,e,*ed): CASES.append((i,p,e,list(ed)))
F="featselect/"
B="cmd/bnb.go"; L="cmd/lasso.go"; SA="cmd/sasearch.go"; R="cmd/root.go"; Q="cmdDepreciated/"
CO=Q+"goselect-cohenlasso/main.go"; ME=Q+"goselect-mem/main.go"; NE=Q+"goselect-nestedlasso/main.go"; PL=Q+"goselect-plotlasso/main.go"
S=F+"csvIO.go"; LP=F+"lassoPlot.go"
P=["X01","X02"]
# quiet
C("tq1",P,"quiet",(B,"""		target, _ := cmd.Flags().GetInt("target")
		cutoff, _ := cmd.Flags().GetFloat64("cutoff")
		outfile, _ := cmd.Flags().GetString("out")
		maxQueue, _ := cmd.Flags().GetInt("maxqueue")

		findOptimalSolution(csvfile, target, cutoff, outfile, maxQueue)
""","""		flags := cmd.Flags()
		outfile, _ := flags.GetString("out")
		maxQueue, _ := flags.GetInt("maxqueue")
		cutoff, _ := flags.GetFloat64("cutoff")
		target, err := flags.GetInt("target")
		if err != nil {
			log.Fatal(err)
		}

		findOptimalSolution(csvfile, target, cutoff, outfile, maxQueue)
"""))
C("tq2",P,"quiet",(SA,"""	highscoreJSON, err := json.Marshal(res.Scores)
	if err != nil {
		log.Fatalf("Error: %s", err)
	}
	if err := ioutil.WriteFile(out, highscoreJSON, 0644); err != nil {
		log.Fatalf("Error: %s", err)
	}
""","""	if err := saveJSON(out, res.Scores); err != nil {
		log.Fatalf("Error: %s", err)
	}
"""),(SA,"""func saSearch(""","""func saveJSON(fname string, v interface{}) error {
	js, err := json.Marshal(v)
	if err != nil {
		return fmt.Errorf("encoding: %v", err)
	}
	err = ioutil.WriteFile(fname, js, 0644)
	return err
}

func saSearch("""))
C("tq3",P,"quiet",(PL,"""	entrance := path.PlotEntranceTimes()
	fname := prefix + "_entrance." + ext
	w := 4 * vg.Inch
	h := 4 * vg.Inch
	if err := entrance.Save(w, h, fname); err != nil {
		log.Fatal(err)
	}
	fmt.Printf("Entrance times written to %s\\n", fname)

	quality := path.PlotQualityScores()
	fname = prefix + "_quality." + ext
	if err := quality.Save(w, h, fname); err != nil {
		log.Fatal(err)
	}
	fmt.Printf("Quality score written to %s\\n", fname)
""","""	w := 4 * vg.Inch
	h := 4 * vg.Inch
	name := func(kind string) string { return fmt.Sprintf("%s_%s.%s", prefix, kind, ext) }
	fname := name("entrance")
	if err := path.PlotEntranceTimes().Save(w, h, fname); err != nil {
		log.Fatal(err)
	}
	fmt.Printf("Entrance times written to %s\\n", fname)

	quality := path.PlotQualityScores()
	fname = name("quality")
	err := quality.Save(w, h, fname)
	if err != nil {
		log.Fatal(err)
	}
	fmt.Printf("Quality score written to %s\\n", fname)
"""))
C("tq4",P,"quiet",(PL,"""	var coeffRng featselect.AxisRange
	coeffRngPtr := &coeffRng
	if math.Abs(coeffMax-coeffMin) > 1e-10 {
		coeffRng.Min = coeffMin
		coeffRng.Max = coeffMax
		coeffRngPtr = &coeffRng
	} else {
		coeffRngPtr = nil
	}

	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, coeffRngPtr)""","""	var rng *featselect.AxisRange
	if d := math.Abs(coeffMin - coeffMax); !(d <= 1e-10) {
		rng = &featselect.AxisRange{Min: coeffMin, Max: coeffMax}
	}

	analyseLasso(*lassoPathJSON, *lassoPathOutPrefix, *lassoPathType, rng)"""))
C("tq5",P,"quiet",(L,"""	if lassoType == "lars" {
		var estimator featselect.MorsePenroseCD
		larspath = featselect.LassoLars(normDset, lambMin, &estimator)
	} else if lassoType == "cd" {
		var cov featselect.CovMat
		var corr featselect.PureLasso
		if covType == "empirical" {
			var emp featselect.Empirical
			cov = &emp
		} else if covType == "identity" {
			var id featselect.Identity
			cov = &id
		} else if covType == "threshold" {
			cov = featselect.NewSparseThreshold(normDset.X)
		} else {
			log.Fatalf("Unknown covariance type %s\\n", covType)
		}
		lambs := featselect.Logspace(lambMin, lambMax, num)
		larspath = featselect.LassoCrdDescPath(normDset, cov, lambs, 100000, tol, &corr)
	} else {
		log.Fatalf("Unknown lasso type %s\\n", lassoType)
	}
""","""	switch lassoType {
	case "lars":
		larspath = featselect.LassoLars(normDset, lambMin, &featselect.MorsePenroseCD{})
	case "cd":
		lambs := featselect.Logspace(lambMin, lambMax, num)
		larspath = featselect.LassoCrdDescPath(normDset, covariance(covType, normDset), lambs, 100000, tol, new(featselect.PureLasso))
	default:
		log.Fatalf("Unknown lasso type %s\\n", lassoType)
	}
"""),(L,"""func lassoFit(""","""func covariance(name string, data *featselect.NormalizedData) featselect.CovMat {
	switch name {
	case "empirical":
		return &featselect.Empirical{}
	case "identity":
		return &featselect.Identity{}
	case "threshold":
		return featselect.NewSparseThreshold(data.X)
	}
	log.Fatalf("Unknown covariance type %s\\n", name)
	return nil
}

func lassoFit("""))
C("tq6",P,"quiet",(CO,"""	for i := range targets {
		cohenTarget := featselect.NewPureLassoCohen()
		cohenTarget.Dset = normDset
		cohenTarget.Lamb = lambs[len(lambs)-i-1]
		cohenTarget.Cov = &cov
		cohenTarget.MaxIter = 100000
		cohenTarget.Tol = tol
		cohenTarget.Correction = &corr
		targets[i] = cohenTarget
	}
""","""	for i := numLamb - 1; i >= 0; i-- {
		t := featselect.NewPureLassoCohen()
		t.Tol = tol
		t.MaxIter = 100000
		t.Dset = normDset
		t.Lamb = lambs[numLamb-i-1]
		t.Cov = &cov
		t.Correction = &corr
		targets[i] = t
	}
"""))
C("tq7",P,"quiet",(ME,"""	memory := *memUse
	numInQueue := memory * 1000000000 / size
	fmt.Printf("Buffer size for %d GB: %d\\n", memory, numInQueue)
""","""	const giga = 1000000000
	fmt.Printf("Buffer size for %d GB: %d\\n", *memUse, *memUse*giga/size)
"""))
C("tq8",P,"quiet",(NE,"""	nestedCsv := flag.String("csvfile", "", "CSV file with data")
	nestedTarget""","""	var nestedCsv string
	flag.StringVar(&nestedCsv, "csvfile", "", "CSV file with data")
	nestedTarget"""),(NE,"nestedLasso(*nestedCsv,","nestedLasso(nestedCsv,"))
C("tq9",P,"quiet",(S,"""	csvFile, err := os.Open(fname)
""","""	f, err := os.Open(fname)
	csvFile := f
"""))
C("tq10",P,"quiet",(NE,"""	dset := featselect.ReadCSV(csvfile, targetCol)
	if dset == nil {
		log.Fatalf("No data read from %s\\n", csvfile)
	}
""","""	dset := load(csvfile, targetCol)
"""),(NE,"""func nestedLasso(""","""func load(csvfile string, targetCol int) *featselect.Dataset {
	if dset := featselect.ReadCSV(csvfile, targetCol); dset != nil {
		return dset
	}
	log.Fatalf("No data read from %s\\n", csvfile)
	return nil
}

func nestedLasso("""))
C("tq11",P,"quiet",(B,"""	params := featselect.NewSelectModelOptParams()
	params.Cutoff = cutoff
	params.MaxQueueSize = maxQueueSize
""","""	params := searchParams(cutoff, maxQueueSize)
"""),(B,"""func setSearchFinished(""","""func searchParams(cutoff float64, size int) *featselect.SelectModelOptParams {
	p := featselect.NewSelectModelOptParams()
	p.MaxQueueSize = size
	p.Cutoff = cutoff
	return p
}

func setSearchFinished("""))
# alarms X02
C("ta1",["X02"],"alarm",(B,"params.MaxQueueSize = maxQueueSize","if maxQueueSize > params.MaxQueueSize {\n\t\tparams.MaxQueueSize = maxQueueSize\n\t}"))
C("ta2",["X02"],"alarm",(L,"lassoFit(lassoCsv, target, out, lmin, lmax, num, ltype, cov, tol)","lassoFit(lassoCsv, target, out, lmin, tol, num, ltype, cov, lmax)"))
C("ta3",["X02"],"alarm",(L,"cov = &id","_ = id\n\t\t\tvar e2 featselect.Empirical\n\t\t\tcov = &e2"))
C("ta4",["X02"],"alarm",(PL,"	coeffMin := *lassoPathCoeffMin\n","	coeffMin := math.Max(*lassoPathCoeffMin, 0)\n"))
C("ta5",["X02"],"alarm",(PL,'fname = prefix + "_dev." + ext','fname = prefix + "_quality." + ext'))
C("ta6",["X02"],"alarm",(L,"""	} else {
		log.Fatalf("Unknown lasso type %s\\n", lassoType)
	}""","""	} else {
		log.Printf("Unknown lasso type %s\\n", lassoType)
	}"""))
C("ta7",["X02"],"alarm",(CO,"cohenTarget.Tol = tol","if tol < 1e-4 {\n\t\t\tcohenTarget.Tol = tol\n\t\t}"))
C("ta8",["X02"],"alarm",(NE,"	flag.Parse()\n	nestedLasso(*nestedCsv, *nestedTarget, *nestedOut, *nestedLamb, *nestedKeep)","	keep := *nestedKeep\n	flag.Parse()\n	nestedLasso(*nestedCsv, *nestedTarget, *nestedOut, *nestedLamb, keep)"))
C("ta9",["X02"],"alarm",(SA,'saSweeps, _ := cmd.Flags().GetInt("sweeps")','saSweeps, _ := cmd.Flags().GetInt("sweep")'))
C("ta10",["X02"],"alarm",(L,'cmd.Flags().GetFloat64("lmax")','cmd.Flags().GetFloat64("lmin")'))
C("ta11",["X02"],"alarm",(ME,"memory * 1000000000 / size","memory * (1000000000 / size)"))
C("ta12",["X02"],"alarm",(L,"	lassoCmd.Flags().Int(\"num\", 50,","	lassoCmd.Flags().Float64(\"num\", 50,"))
C("ta13",["X02"],"alarm",(B,"params.Cutoff = cutoff","params.Cutoff = -cutoff"))
C("ta14",["X02"],"alarm",(L,'} else if covType == "threshold" {','} else if covType != "" {'))
# alarms X01
C("xa1",["X01"],"alarm",(SA,"""	if err := ioutil.WriteFile(out, highscoreJSON, 0644); err != nil {
		log.Fatalf("Error: %s", err)
	}
""","""	if err := ioutil.WriteFile(out, highscoreJSON, 0644); err != nil {
		log.Printf("Error: %s", err)
	}
"""))
C("xa2",["X01"],"alarm",(NE,"""	if err := ioutil.WriteFile(out, js, 0644); err != nil {
		log.Fatalf("Error %s", err)
	}
	fmt.Printf("Nested LASSO-LARS results written to %s\\n", out)
""","""	err = ioutil.WriteFile(out, js, 0644)
	fmt.Printf("Nested LASSO-LARS results written to %s\\n", out)
	if err != nil {
		log.Fatalf("Error %s", err)
	}
"""))
C("xa3",["X01"],"alarm",(B,"""	highscoreJSON, err := json.Marshal(h)
	if err != nil {
		return err
	}
	return""","""	highscoreJSON, _ := json.Marshal(h)
	return"""))
C("xa4",["X01"],"alarm",(B,"""	if err := saveHighscoreList(outfile, highscore); err != nil {
		log.Fatalf(""","""	if err := saveHighscoreList(outfile, highscore); err != nil && highscore.Len() > 10 {
		log.Fatalf("""))
C("xa5",["X01"],"alarm",(SA,"""	if dset == nil {
		log.Fatalf("No data read from %s\\n", csvfile)
	}
""",""))
C("xa6",["X01"],"alarm",(PL,"""	if err := dev.Save(w, h, fname); err != nil {
		log.Fatal(err)
	}
""","""	if err := dev.Save(w, h, fname); err != nil {
		log.Println(err)
	}
"""))
C("xa7",["X01"],"alarm",(L,"""	js, err := json.Marshal(path)

	if err != nil {
		log.Fatalf("Error: %s", err)
	}

	if err := ioutil""","""	js, err := json.Marshal(path)
	if js == nil && err == nil {
		log.Fatalf("Error: %s", err)
	}
	if err := ioutil"""))
C("ta15",["X02"],"alarm",(PL,"	if math.Abs(coeffMax-coeffMin) > 1e-10 {","	if math.Max(coeffMax, 0)-coeffMin > 1e-10 || coeffMax-coeffMin > 1e-10 {"))
C("ta16",["X02"],"alarm",(PL,"	if math.Abs(coeffMax-coeffMin) > 1e-10 {","	if math.Abs(coeffMax-coeffMin) > 1e-10 && coeffMin != 0 {"))
C("tq12",P,"quiet",(PL,"	if math.Abs(coeffMax-coeffMin) > 1e-10 {","	if coeffMax-coeffMin > 1e-10 || coeffMin-coeffMax > 1e-10 {"),(PL,'	"math"\n',""))
C("tq13",P,"quiet",(PL,"	if math.Abs(coeffMax-coeffMin) > 1e-10 {","	if rngSet := coeffMax != coeffMin; rngSet {"),(PL,'	"math"\n',""))
C("ta17",["X02"],"alarm",(PL,"	if math.Abs(coeffMax-coeffMin) > 1e-10 {","	if coeffMax-coeffMin > 1e-10 {"),(PL,'	"math"\n',""))
C("xa8",["X01"],"alarm",(NE,"""	if err := ioutil.WriteFile(out, js, 0644); err != nil {
		log.Fatalf("Error %s", err)
	}
	fmt.Printf("Nested LASSO-LARS results written to %s\\n", out)
""","""	defer fmt.Printf("Nested LASSO-LARS results written to %s\\n", out)
	if err := ioutil.WriteFile(out, js, 0644); err != nil {
		log.Panicf("Error %s", err)
	}
"""))
C("xa9",["X01"],"alarm",(S,"""	defer csvFile.Close()
	return ParseCSV""","""	defer csvFile.Close()
	defer func() {
		if r := recover(); r != nil {
			fmt.Println(r)
		}
	}()
	return ParseCSV"""))
