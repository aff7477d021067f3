// Carries out operations of the Go binding, one JSON line each, and tells what they returned.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"io/fs"
	"os"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/anacrolix/generics"
	possum "github.com/anacrolix/possum/go"
	possumResource "github.com/anacrolix/possum/go/resource"
)

type Req struct {
	Op    string
	H     int
	K     []int
	Q     []int
	Ks    [][]int
	Tag   uint64
	Size  int
	Chunk int
	Fail  bool
	Off   int64
	Len   int
	Prov  bool
	Nil   bool
	R     int
	I     int
	W     int
	Max   *uint64
	Flag  bool
	Close bool
	Dir   string
	Par   [][]Req
}

type Stat struct {
	Name string
	Size int64
	// milliseconds; exact?
	Time  int64
	Exact bool
}
type Val struct {
	Err  string
	Stat *Stat
	Hex  string
	Bad  string
}
type Resp struct {
	Err   string
	N     int
	Hex   string
	Ok    bool
	Stat  *Stat
	Keys  []string
	Items []Stat
	Vals  []Val
	Id    int
	Start int64
	End   int64
	Par   [][]Resp
}

type held struct {
	r    possum.Reader
	vals []possum.Value
	has  []bool
}

// Of the library this is linked with.
var stamp string

var (
	handles []*possum.Handle
	readers []*held
	writers []*possum.Writer
	clock   atomic.Int64
)

func bytesOf(k []int) []byte {
	b := make([]byte, len(k))
	for i, x := range k {
		b[i] = byte(x)
	}
	return b
}

func content(tag uint64, n int) []byte {
	v := make([]byte, 0, n+8)
	for i := uint64(0); len(v) < n; i++ {
		z := tag*0x9E3779B97F4A7C15 + i*0xD1B54A32D192ED03
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		z ^= z >> 31
		z |= 0x0101010101010101
		for j := 0; j < 8; j++ {
			v = append(v, byte(z>>(8*j)))
		}
	}
	return v[:n]
}

var errInjected = errors.New("injected")

func errOf(err error) string {
	switch {
	case err == nil:
		return ""
	case err == io.EOF:
		return "eof"
	case errors.Is(err, possum.ErrHandleClosed):
		return "closed"
	case errors.Is(err, errInjected):
		return "injected"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	default:
		return "other: " + err.Error()
	}
}

func statOf(fi fs.FileInfo) *Stat {
	t := fi.ModTime()
	if fi.IsDir() || !fi.Mode().IsRegular() {
		return &Stat{Name: "not a regular file"}
	}
	return &Stat{hex.EncodeToString([]byte(fi.Name())), fi.Size(), t.UnixMilli(), t.Nanosecond()%1000000 == 0}
}

// Gives at most chunk bytes at once, and perhaps an error in the end.
type feed struct {
	data  []byte
	chunk int
	fail  bool
}

func (f *feed) Read(p []byte) (n int, err error) {
	if len(f.data) == 0 {
		if f.fail {
			return 0, errInjected
		}
		return 0, io.EOF
	}
	if f.chunk > 0 && len(p) > f.chunk {
		p = p[:f.chunk]
	}
	n = copy(p, f.data)
	f.data = f.data[n:]
	return
}

func readAll(v possum.Value, size int64) (string, string) {
	b := make([]byte, size)
	for i := range b {
		b[i] = 0
	}
	if size == 0 {
		return "", ""
	}
	n, err := v.ReadAt(b, 0)
	if err != nil && !(err == io.EOF && int64(n) == size) {
		return hex.EncodeToString(b[:n]), errOf(err)
	}
	return hex.EncodeToString(b[:n]), ""
}

func buffer(q *Req) []byte {
	if q.Nil && q.Len == 0 {
		return nil
	}
	b := make([]byte, q.Len)
	for i := range b {
		b[i] = 0xEE
	}
	return b
}

func do(q *Req) (s Resp) {
	key := bytesOf(q.K)
	sk := string(key)
	var h *possum.Handle
	if q.H < len(handles) {
		h = handles[q.H]
	}
	prov := possumResource.Provider{h}
	switch q.Op {
	case "reset":
		for _, r := range readers {
			if r != nil {
				r.r.End()
			}
		}
		for _, w := range writers {
			if w != nil {
				_ = w.Commit()
			}
		}
		for _, h := range handles {
			h.Close()
		}
		readers, writers, handles = nil, nil, nil
		runtime.GC()
	case "open":
		h, err := possum.Open(q.Dir)
		s.Err = errOf(err)
		if err == nil {
			s.Id = len(handles)
			handles = append(handles, h)
		}
	case "close":
		s.Err = errOf(h.Close())
	case "put":
		var d []byte = content(q.Tag, q.Size)
		if q.Nil && q.Size == 0 {
			d = nil
		}
		s.Err = errOf(h.PutBuf(sk, d))
	case "provput":
		i, _ := prov.NewInstance(sk)
		s.Err = errOf(i.Put(&feed{content(q.Tag, q.Size), q.Chunk, q.Fail}))
	case "del":
		if q.Prov {
			i, _ := prov.NewInstance(sk)
			s.Err = errOf(i.Delete())
			break
		}
		var fi generics.Option[possum.FileInfo]
		fi, err := h.SingleDelete(sk)
		s.Err = errOf(err)
		s.Ok = fi.Ok
		if fi.Ok {
			s.Stat = statOf(fi.Value)
		}
	case "stat":
		if q.Prov {
			i, _ := prov.NewInstance(sk)
			fi, err := i.Stat()
			s.Err = errOf(err)
			s.Ok = err == nil
			if err == nil {
				s.Stat = statOf(fi)
			}
			break
		}
		fi, ok := h.SingleStat(sk)
		s.Ok = ok
		if ok {
			s.Stat = statOf(fi)
		}
	case "readat":
		b := buffer(q)
		var err error
		if q.Prov {
			i, _ := prov.NewInstance(sk)
			s.N, err = i.ReadAt(b, q.Off)
		} else {
			s.N, err = h.SingleReadAt(sk, q.Off, b)
		}
		s.Err = errOf(err)
		if s.N >= 0 && s.N <= len(b) {
			s.Hex = hex.EncodeToString(b[:s.N])
		}
	case "list":
		var l []string
		var err error
		if q.Prov {
			i, _ := prov.NewInstance(sk)
			l, err = i.(interface{ Readdirnames() ([]string, error) }).Readdirnames()
		} else {
			l, err = h.ListKeys(sk)
		}
		s.Err = errOf(err)
		for _, k := range l {
			s.Keys = append(s.Keys, hex.EncodeToString([]byte(k)))
		}
	case "get":
		i, _ := prov.NewInstance(sk)
		r, err := i.Get()
		s.Err = errOf(err)
		if err != nil {
			break
		}
		var all []byte
		p := make([]byte, max(q.Chunk, 1))
		for {
			n, err := r.Read(p)
			all = append(all, p[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				s.Err = "read " + errOf(err)
				break
			}
		}
		s.Hex = hex.EncodeToString(all)
		if err := r.Close(); err != nil {
			s.Err = "close " + errOf(err)
		}
	case "reader":
		r, err := h.NewReader()
		s.Err = errOf(err)
		if err != nil {
			break
		}
		x := &held{r: r}
		for _, k := range q.Ks {
			v, err := r.Add(string(bytesOf(k)))
			s.Vals = append(s.Vals, Val{Err: errOf(err)})
			x.vals = append(x.vals, v)
			x.has = append(x.has, err == nil)
			if err == nil {
				s.Vals[len(s.Vals)-1].Stat = statOf(v.Stat())
			}
		}
		if q.Prov {
			l, err := r.ListItems(sk)
			if err != nil {
				s.Err = "list " + errOf(err)
			}
			for _, i := range l {
				s.Items = append(s.Items, Stat{hex.EncodeToString([]byte(i.Key)), i.Size(), i.LastUsed().UnixMilli(), i.LastUsed().Nanosecond()%1000000 == 0})
			}
		}
		if q.Fail {
			// ended without a snapshot
			r.End()
			break
		}
		if err := r.Begin(); err != nil {
			s.Err = "begin " + errOf(err)
		}
		for i := range s.Vals {
			if x.has[i] {
				st := statOf(x.vals[i].Stat())
				if *st != *s.Vals[i].Stat {
					s.Vals[i].Bad = "the stat changed"
				}
				s.Vals[i].Hex, s.Vals[i].Err = readAll(x.vals[i], st.Size)
			}
		}
		if q.Flag {
			s.Id = len(readers)
			readers = append(readers, x)
		} else if err := r.Close(); err != nil {
			s.Err = "close " + errOf(err)
		}
	case "rread":
		b := buffer(q)
		n, err := readers[q.R].vals[q.I].ReadAt(b, q.Off)
		s.N, s.Err = n, errOf(err)
		if n >= 0 && n <= len(b) {
			s.Hex = hex.EncodeToString(b[:n])
		}
	case "rend":
		readers[q.R].r.End()
		readers[q.R] = nil
	case "wnew":
		w, err := h.NewWriter()
		s.Err = errOf(err)
		if err == nil {
			s.Id = len(writers)
			writers = append(writers, w)
		}
	case "wput":
		w := writers[q.W]
		vw, err := w.StartNewValue()
		if err != nil {
			s.Err = "start " + errOf(err)
			break
		}
		d := content(q.Tag, q.Size)
		// in parts, through files of their own
		parts := 1
		if q.Flag {
			parts = 2
		}
		for i := 0; i < parts; i++ {
			f, err := vw.NewFile("v")
			if err != nil {
				s.Err = "file " + errOf(err)
				return
			}
			p := d[:len(d)/(parts-i)]
			d = d[len(p):]
			if _, err = io.Copy(f, &feed{p, q.Chunk, false}); err != nil {
				s.Err = "write " + errOf(err)
			}
			if q.Close {
				if err := f.Close(); err != nil {
					s.Err = "close " + errOf(err)
				}
			}
		}
		if err := w.Stage(key, vw); err != nil {
			s.Err = "stage " + errOf(err)
		}
	case "wrename":
		writers[q.W].Rename(readers[q.R].vals[q.I], key)
	case "wcommit":
		s.Err = errOf(writers[q.W].Commit())
		writers[q.W] = nil
	case "movepfx":
		s.Err = errOf(h.MovePrefix(key, bytesOf(q.Q)))
	case "delpfx":
		if q.Prov {
			s.Err = errOf(prov.DeletePrefix(sk))
		} else {
			s.Err = errOf(h.DeletePrefix(key))
		}
	case "limits":
		var l possum.Limits
		if q.Max != nil {
			l.MaxValueLengthSum.Set(*q.Max)
		}
		l.DisableHolePunching = q.Flag
		s.Err = errOf(h.SetInstanceLimits(l))
	case "cleanup":
		s.Err = errOf(h.CleanupSnapshots())
	case "par":
		var wg sync.WaitGroup
		s.Par = make([][]Resp, len(q.Par))
		begin := make(chan struct{})
		for t := range q.Par {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				<-begin
				for i := range q.Par[t] {
					start := clock.Add(1)
					r := do(&q.Par[t][i])
					r.Start, r.End = start, clock.Add(1)
					s.Par[t] = append(s.Par[t], r)
				}
			}(t)
		}
		close(begin)
		wg.Wait()
	default:
		s.Err = "no operation " + q.Op
	}
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q Req
		if err := json.Unmarshal(l, &q); err != nil {
			panic(err)
		}
		b, err := json.Marshal(do(&q))
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
		out.Flush()
	}
}
