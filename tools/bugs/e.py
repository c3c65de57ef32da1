exec(open("/verif/tools/bugs/b.py").read().split('B("C18')[0])
U, K2, ST = P+"utils", P+"utils/klines", "time"
H = P+"helpertools"

B("C43-clock", "C43", "a candle in the afternoon",
  "the candle's text has a twelve-hour clock",
  [("utils/klines/kline_type.go", '''Format("2006-01-02 15:04:05"), e.Open''', '''Format("2006-01-02 03:04:05"), e.Open''')],
  D([K2, "strings"], '''
	c := klines.Candle{TimeUnix: 1700000000 - 1700000000%86400 + 13*3600 + 62}
	if !strings.Contains(c.String(), "13:01:02") {
		fail(c.String())
	}'''))

B("C43-flags", "C43", "a side made of several bits",
  "a combined side value prints as its highest flag",
  [("utils/Side.go", '''	default:
		return "UNKNOWN"
''', '''	default:
		if s&Hold == Hold {
			return "HOLD"
		}
		return "UNKNOWN"
''')],
  D([U], '''
	if s := (utils.Hold | utils.Sell).String(); s != "UNKNOWN" {
		fail(s)
	}
	if utils.Hold.String() != "HOLD" {
		fail("hold")
	}'''))

B("C43-report", "C43", "a close with more digits than a short float holds",
  "the report prints the close from a short float",
  [("main.go", "			v.Close,\n", "			float32(v.Close),\n")],
  D(["encoding/json", "os/exec", "path/filepath", "strings"], """
	dir, err := os.MkdirTemp("", "report")
	if err != nil {
		fail(err)
	}
	defer os.RemoveAll(dir)
	it := wave(60, func(i int) float64 { return 812345.07 + float64(i*i%9)/16 })
	b, _ := json.Marshal(it.Candles)
	os.Mkdir(filepath.Join(dir, "data"), 0o755)
	os.WriteFile(filepath.Join(dir, "data", "test.json"), b, 0o600)
	prog := filepath.Join(dir, "report")
	if out, err := exec.Command("go", "build", "-o", prog, ".").CombinedOutput(); err != nil {
		fmt.Println(string(out))
		panic(err)
	}
	cmd := exec.Command(prog)
	cmd.Dir = dir
	out, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\\n")
	for i, c := range it.Candles {
		if !strings.Contains(lines[i], fmt.Sprintf("%.2f", c.Close)) {
			os.RemoveAll(dir)
			fail(i, lines[i], c.Close)
		}
	}"""))
