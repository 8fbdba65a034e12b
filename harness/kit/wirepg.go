package verifkit

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
)

// Login is one attempt to log in to a wire-level stand-in.
type Login struct {
	User, DB, Password string
	OK                 bool
	Params             map[string]string
	TLS                bool // TLS was asked for
}

// WireDB is a wire-level front of a Sim.
type WireDB struct {
	lis      net.Listener
	mu       sync.Mutex
	sim      *Sim
	user     string
	password string
	db       string
	Logins   []Login
	Conns    int
	Broken   string // a client message the stand-in does not understand
}

// Addr is where the stand-in listens.
func (w *WireDB) Addr() string { return w.lis.Addr().String() }

// Close ends the stand-in.
func (w *WireDB) Close() { _ = w.lis.Close() }

func newWire(sim *Sim, network, addr, user, password, db string, serve func(*WireDB, net.Conn) error) *WireDB {
	lis, err := net.Listen(network, addr)
	if err != nil {
		panic(err)
	}
	w := &WireDB{lis: lis, sim: sim, user: user, password: password, db: db}
	go func() {
		for {
			c, err := lis.Accept()
			if err != nil {
				return
			}
			w.mu.Lock()
			w.Conns++
			w.mu.Unlock()
			go func() {
				defer c.Close()
				if err := serve(w, c); err != nil && err != io.EOF {
					w.mu.Lock()
					w.Broken = err.Error()
					w.mu.Unlock()
				}
			}()
		}
	}()
	return w
}

// Seen returns what was recorded.
func (w *WireDB) Seen() ([]Login, int, string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Login(nil), w.Logins...), w.Conns, w.Broken
}

// ServePG starts a PostgreSQL stand-in.
func ServePG(sim *Sim, user, password, db string) *WireDB {
	return newWire(sim, "tcp", "127.0.0.1:0", user, password, db, (*WireDB).pg)
}

type pgConn struct {
	r *bufio.Reader
	w *bufio.Writer
}

func (p *pgConn) send(t byte, body ...[]byte) {
	n := 4
	for _, b := range body {
		n += len(b)
	}
	_ = p.w.WriteByte(t)
	_ = binary.Write(p.w, binary.BigEndian, int32(n))
	for _, b := range body {
		_, _ = p.w.Write(b)
	}
}

func cstr(s string) []byte { return append([]byte(s), 0) }
func be16(n int) []byte    { return []byte{byte(n >> 8), byte(n)} }
func be32(n int) []byte    { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func (p *pgConn) ready() error {
	p.send('Z', []byte{'I'})
	return p.w.Flush()
}

func (p *pgConn) fail(code, msg string) {
	p.send('E', []byte("S"), cstr("ERROR"), []byte("C"), cstr(code), []byte("M"), cstr(msg), []byte{0})
}

func (p *pgConn) rowDesc(r *Rows) {
	b := be16(len(r.Cols))
	for _, c := range r.Cols {
		oid := 25
		if c == "is_pk" {
			oid = 16
		}
		if c == "column_names" {
			oid = 1009
		}
		b = append(b, cstr(c)...)
		b = append(b, be32(0)...)
		b = append(b, be16(0)...)
		b = append(b, be32(oid)...)
		b = append(b, be16(-1)...)
		b = append(b, be32(-1)...)
		b = append(b, be16(0)...)
	}
	p.send('T', b)
}

func (p *pgConn) rows(r *Rows) {
	for _, d := range r.Data {
		b := be16(len(d))
		for _, v := range d {
			if v == nil {
				b = append(b, be32(-1)...)
				continue
			}
			s := fmt.Sprint(v)
			if x, ok := v.(bool); ok {
				s = "f"
				if x {
					s = "t"
				}
			}
			b = append(b, be32(len(s))...)
			b = append(b, s...)
		}
		p.send('D', b)
	}
	p.send('C', cstr(fmt.Sprintf("SELECT %d", len(r.Data))))
}

func (w *WireDB) pg(c net.Conn) error {
	p := &pgConn{bufio.NewReader(c), bufio.NewWriter(c)}
	lg := Login{Params: map[string]string{}}
	for {
		var n int32
		if err := binary.Read(p.r, binary.BigEndian, &n); err != nil {
			return io.EOF
		}
		if n < 8 || n > 1<<20 {
			return fmt.Errorf("bad startup length %d", n)
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(p.r, b); err != nil {
			return io.EOF
		}
		code := binary.BigEndian.Uint32(b)
		if code == 80877103 { // SSLRequest
			lg.TLS = true
			w.mu.Lock()
			w.Logins = append(w.Logins, lg)
			w.mu.Unlock()
			_, _ = c.Write([]byte{'N'})
			continue
		}
		if code == 80877102 { // cancel
			return nil
		}
		kv := strings.Split(strings.TrimRight(string(b[4:]), "\x00"), "\x00")
		for i := 0; i+1 < len(kv); i += 2 {
			lg.Params[kv[i]] = kv[i+1]
		}
		break
	}
	lg.User, lg.DB = lg.Params["user"], lg.Params["database"]
	if lg.DB == "" {
		lg.DB = lg.User
	}
	p.send('R', be32(3))
	if err := p.w.Flush(); err != nil {
		return io.EOF
	}
	read := func() (byte, []byte, error) {
		t, err := p.r.ReadByte()
		if err != nil {
			return 0, nil, io.EOF
		}
		var n int32
		if err := binary.Read(p.r, binary.BigEndian, &n); err != nil {
			return 0, nil, io.EOF
		}
		if n < 4 || n > 64<<20 {
			return 0, nil, fmt.Errorf("bad length %d", n)
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(p.r, b); err != nil {
			return 0, nil, io.EOF
		}
		return t, b, nil
	}
	t, b, err := read()
	if err != nil {
		return err
	}
	if t != 'p' {
		return fmt.Errorf("expected a password, got %q", t)
	}
	lg.Password = strings.TrimSuffix(string(b), "\x00")
	lg.OK = lg.User == w.user && lg.DB == w.db && lg.Password == w.password
	w.mu.Lock()
	w.Logins = append(w.Logins, lg)
	sim := w.sim
	w.mu.Unlock()
	if !lg.OK {
		p.send('E', []byte("S"), cstr("FATAL"), []byte("C"), cstr("28P01"), []byte("M"), cstr("password authentication failed for user \""+lg.User+"\""), []byte{0})
		return p.w.Flush()
	}
	p.send('R', be32(0))
	for k, v := range map[string]string{"server_version": "14.5", "client_encoding": "UTF8", "DateStyle": "ISO, MDY", "TimeZone": "UTC", "standard_conforming_strings": "on"} {
		p.send('S', cstr(k), cstr(v))
	}
	p.send('K', be32(1), be32(2))
	if err := p.ready(); err != nil {
		return io.EOF
	}
	stmts := map[string]string{}
	type portal struct {
		sql  string
		args []string
	}
	portals := map[string]portal{}
	skip := false
	for {
		t, b, err := read()
		if err != nil {
			return err
		}
		if skip && t != 'S' {
			continue
		}
		cs := func() string {
			i := strings.IndexByte(string(b), 0)
			s := string(b[:i])
			b = b[i+1:]
			return s
		}
		switch t {
		case 'X':
			return nil
		case 'Q':
			sql := strings.TrimSuffix(string(b), "\x00")
			if strings.TrimSpace(sql) == "" || strings.TrimSpace(sql) == ";" { // ping
				p.send('I')
				if err := p.ready(); err != nil {
					return io.EOF
				}
				continue
			}
			rows, err := sim.Handle("pgwire", sql, nil, nil)
			if err != nil {
				p.fail("XX000", err.Error())
			} else if rows == nil || len(rows.Cols) == 0 {
				p.send('C', cstr("OK"))
			} else {
				p.rowDesc(rows)
				p.rows(rows)
			}
			if err := p.ready(); err != nil {
				return io.EOF
			}
		case 'P':
			name := cs()
			stmts[name] = cs()
			p.send('1')
		case 'D':
			kind := b[0]
			b = b[1:]
			name := cs()
			sql := stmts[name]
			if kind == 'P' {
				sql = portals[name].sql
			} else {
				n := 0
				for strings.Contains(sql, fmt.Sprintf("$%d", n+1)) {
					n++
				}
				x := be16(n)
				for i := 0; i < n; i++ {
					x = append(x, be32(25)...)
				}
				p.send('t', x)
			}
			// the shape does not depend on the arguments
			cols := []string{"table_name", "column_name", "is_pk"}
			ev := &Event{SQL: sql}
			sim.classify(ev)
			if ev.Kind == "indexes" {
				cols = []string{"table_name", "column_names"}
				if strings.Contains(strings.ToLower(sql), "as index_name") {
					cols = []string{"index_name", "table_name", "column_names"}
				}
			}
			p.rowDesc(&Rows{Cols: cols})
		case 'B':
			pn, sn := cs(), cs()
			u16 := func() int { v := int(b[0])<<8 | int(b[1]); b = b[2:]; return v }
			nf := u16()
			for i := 0; i < nf; i++ {
				if u16() != 0 {
					return fmt.Errorf("binary parameters")
				}
			}
			var args []string
			for i := u16(); i > 0; i-- {
				l := int(int32(binary.BigEndian.Uint32(b)))
				b = b[4:]
				if l < 0 {
					args = append(args, "NULL")
					continue
				}
				args = append(args, string(b[:l]))
				b = b[l:]
			}
			portals[pn] = portal{stmts[sn], args}
			p.send('2')
		case 'E':
			po := portals[cs()]
			rows, err := sim.Handle("pgwire", po.sql, po.args, nil)
			if err != nil {
				p.fail("XX000", err.Error())
				skip = true
				continue
			}
			p.rows(rows)
		case 'C':
			p.send('3')
		case 'H':
			_ = p.w.Flush()
		case 'S':
			skip = false
			if err := p.ready(); err != nil {
				return io.EOF
			}
		default:
			return fmt.Errorf("unexpected message %q", t)
		}
	}
}
