from bugs import bug, B, CLI, WEB, GEN
W='web/main.go'; C='cmd/jargon/main.go'
first=len(B)
bug('c25-read-timeout','a body that takes more than 10 seconds to arrive','the request is answered with status 500, though its body is complete',
 [(W,'	log.Fatal(http.ListenAndServe(":"+port, nil))','	server := &http.Server{Addr: ":" + port, ReadTimeout: 10 * time.Second, WriteTimeout: 60 * time.Second}\n	log.Fatal(server.ListenAndServe())'),(W,'	"strings"\n','	"strings"\n	"time"\n')],
WEB+'''
func TestDemo(t *testing.T) {
	addr := server(t)
	pr, pw := io.Pipe()
	go func() {
		io.WriteString(pw, "Ruby on Rails ")
		time.Sleep(12 * time.Second)
		io.WriteString(pw, "and the end")
		pw.Close()
	}()
	r, err := http.Post("http://"+addr+"/text", "text/plain", pr)
	if err != nil {
		t.Fatal(err)
	}
	body, err := io.ReadAll(r.Body)
	if err != nil || r.StatusCode != 200 || !strings.HasSuffix(string(body), "and the end") {
		t.Fatalf("%s %q %v", r.Status, body, err)
	}
}''')
bug('c23-limit-64','an input file of more than 64 MB','what is beyond is left out, and the command says nothing',
 [(C,"			// Otherwise, use 1MB buffer size, better perf over default, but not huge\n			c.Reader = bufio.NewReaderSize(c.Filein, 1024*1024)","			// Otherwise, use 1MB buffer size, better perf over default, but not huge\n			c.Reader = bufio.NewReaderSize(io.LimitReader(c.Filein, 64*1024*1024), 1024*1024)"),(C,'	"fmt"\n','	"fmt"\n	"io"\n')],
CLI+'''
func TestDemo(t *testing.T) {
	dir := os.Getenv("DEMO_TMP")
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	os.WriteFile(in, bytes.Repeat([]byte("Some text about this and that, a word or two.\\n"), 1500000), 0600)
	if b, err := exec.Command(jargonCmd(t), "-file", in, "-out", out).CombinedOutput(); err != nil {
		t.Fatal(string(b), err)
	}
	a, _ := os.Stat(in)
	b, _ := os.Stat(out)
	if a.Size() != b.Size() {
		t.Fatal(a.Size(), b.Size())
	}
}''')
B[:]=B[first:]
