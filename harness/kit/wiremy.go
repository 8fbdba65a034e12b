package verifkit

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
)

// ServeMySQL starts a MySQL stand-in on a TCP port or a unix socket.
func ServeMySQL(sim *Sim, network, addr, user, password, db string) *WireDB {
	return newWire(sim, network, addr, user, password, db, (*WireDB).my)
}

type myConn struct {
	r   *bufio.Reader
	w   *bufio.Writer
	seq byte
}

func (m *myConn) read() ([]byte, error) {
	var out []byte
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(m.r, h); err != nil {
			return nil, io.EOF
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		m.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(m.r, b); err != nil {
			return nil, io.EOF
		}
		out = append(out, b...)
		if n < 1<<24-1 {
			return out, nil
		}
	}
}

func (m *myConn) send(b []byte) {
	n := len(b)
	_, _ = m.w.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), m.seq})
	_, _ = m.w.Write(b)
	m.seq++
}

func lenc(n int) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return []byte{0xfc, byte(n), byte(n >> 8)}
	case n < 1<<24:
		return []byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}
	}
	b := make([]byte, 9)
	b[0] = 0xfe
	binary.LittleEndian.PutUint64(b[1:], uint64(n))
	return b
}

func lstr(s string) []byte { return append(lenc(len(s)), s...) }

func rdLenc(b []byte) (int, []byte) {
	switch b[0] {
	case 0xfc:
		return int(binary.LittleEndian.Uint16(b[1:])), b[3:]
	case 0xfd:
		return int(b[1]) | int(b[2])<<8 | int(b[3])<<16, b[4:]
	case 0xfe:
		return int(binary.LittleEndian.Uint64(b[1:])), b[9:]
	}
	return int(b[0]), b[1:]
}

func (m *myConn) ok()  { m.send([]byte{0, 0, 0, 2, 0, 0, 0}) }
func (m *myConn) eof() { m.send([]byte{0xfe, 0, 0, 2, 0}) }
func (m *myConn) fail(code int, state, msg string) {
	m.send(append([]byte{0xff, byte(code), byte(code >> 8), '#'}, state+msg...))
}

func (m *myConn) colDef(name string) {
	var b []byte
	for _, s := range []string{"def", "", "", "", name, name} {
		b = append(b, lstr(s)...)
	}
	b = append(b, 0x0c, 0xff, 0x00, 0, 4, 0, 0, 0xfd, 0, 0, 0, 0, 0)
	m.send(b)
}

func nativeScramble(salt []byte, password string) []byte {
	if password == "" {
		return nil
	}
	h1 := sha1.Sum([]byte(password))
	h2 := sha1.Sum(h1[:])
	h := sha1.New()
	h.Write(salt)
	h.Write(h2[:])
	s := h.Sum(nil)
	for i := range s {
		s[i] ^= h1[i]
	}
	return s
}

func (w *WireDB) my(c net.Conn) error {
	m := &myConn{r: bufio.NewReader(c), w: bufio.NewWriter(c)}
	salt := []byte("abcdefghijklmnopqrst")
	// protocol 4.1, secure connection, plugin auth, connect with db, transactions, long password
	caps := uint32(1 | 2 | 8 | 0x200 | 0x2000 | 0x8000 | 0x80000)
	var b bytes.Buffer
	b.WriteByte(10)
	b.WriteString("8.0.31\x00")
	b.Write([]byte{1, 0, 0, 0})
	b.Write(salt[:8])
	b.WriteByte(0)
	b.Write([]byte{byte(caps), byte(caps >> 8), 0xff, 2, 0, byte(caps >> 16), byte(caps >> 24), 21})
	b.Write(make([]byte, 10))
	b.Write(salt[8:])
	b.WriteByte(0)
	b.WriteString("mysql_native_password\x00")
	m.send(b.Bytes())
	if err := m.w.Flush(); err != nil {
		return io.EOF
	}
	p, err := m.read()
	if err != nil {
		return err
	}
	if len(p) < 33 {
		return fmt.Errorf("short login")
	}
	cc := binary.LittleEndian.Uint32(p)
	lg := Login{TLS: cc&0x800 != 0, Params: map[string]string{"collation": fmt.Sprint(p[8]), "found rows": fmt.Sprint(cc&2 != 0)}}
	p = p[32:]
	i := bytes.IndexByte(p, 0)
	if i < 0 {
		return fmt.Errorf("login without user")
	}
	lg.User = string(p[:i])
	p = p[i+1:]
	n := int(p[0])
	auth := p[1 : 1+n]
	p = p[1+n:]
	if cc&8 != 0 {
		if i = bytes.IndexByte(p, 0); i < 0 {
			i = len(p)
		}
		lg.DB = string(p[:i])
	}
	if bytes.Equal(auth, nativeScramble(salt, w.password)) || (w.password == "" && len(auth) == 0) {
		lg.Password = w.password
	} else {
		lg.Password = "(another)"
	}
	lg.OK = lg.User == w.user && lg.DB == w.db && lg.Password == w.password
	w.mu.Lock()
	w.Logins = append(w.Logins, lg)
	sim := w.sim
	w.mu.Unlock()
	if !lg.OK {
		m.fail(1045, "28000", "Access denied for user '"+lg.User+"' (using password: YES)")
		return m.w.Flush()
	}
	m.ok()
	if err := m.w.Flush(); err != nil {
		return io.EOF
	}
	type stmt struct {
		sql string
		n   int
	}
	stmts := map[uint32]stmt{}
	for {
		p, err := m.read()
		if err != nil {
			return err
		}
		if len(p) == 0 {
			return fmt.Errorf("empty command")
		}
		switch p[0] {
		case 1:
			return nil
		case 0x0e:
			m.ok()
		case 3:
			rows, err := sim.Handle("mywire", string(p[1:]), nil, nil)
			if err != nil {
				m.fail(1064, "42000", err.Error())
			} else if rows == nil || len(rows.Cols) == 0 {
				m.ok()
			} else {
				m.send(lenc(len(rows.Cols)))
				for _, c := range rows.Cols {
					m.colDef(c)
				}
				m.eof()
				for _, d := range rows.Data {
					var b []byte
					for _, v := range d {
						if v == nil {
							b = append(b, 0xfb)
						} else {
							b = append(b, lstr(fmt.Sprint(v))...)
						}
					}
					m.send(b)
				}
				m.eof()
			}
		case 0x16:
			id := uint32(len(stmts) + 1)
			s := stmt{string(p[1:]), bytes.Count(p[1:], []byte("?"))}
			stmts[id] = s
			b := []byte{0}
			b = binary.LittleEndian.AppendUint32(b, id)
			b = append(b, 0, 0, byte(s.n), byte(s.n>>8), 0, 0, 0)
			m.send(b)
			if s.n > 0 {
				for i := 0; i < s.n; i++ {
					m.colDef("?")
				}
				m.eof()
			}
		case 0x17:
			s, ok := stmts[binary.LittleEndian.Uint32(p[1:])]
			if !ok {
				return fmt.Errorf("unknown statement")
			}
			q := p[10:]
			var args []string
			if s.n > 0 {
				nb := (s.n + 7) / 8
				nulls := q[:nb]
				q = q[nb:]
				if q[0] != 1 {
					return fmt.Errorf("parameters not bound")
				}
				types := q[1 : 1+2*s.n]
				q = q[1+2*s.n:]
				for i := 0; i < s.n; i++ {
					if nulls[i/8]&(1<<(i%8)) != 0 {
						args = append(args, "NULL")
						continue
					}
					switch types[2*i] {
					case 0xfd, 0xfe, 0x0f:
						var l int
						l, q = rdLenc(q)
						args = append(args, string(q[:l]))
						q = q[l:]
					default:
						return fmt.Errorf("parameter type %d", types[2*i])
					}
				}
			}
			rows, err := sim.Handle("mywire", s.sql, args, nil)
			if err != nil {
				m.fail(1064, "42000", err.Error())
				break
			}
			m.send(lenc(len(rows.Cols)))
			for _, c := range rows.Cols {
				m.colDef(c)
			}
			m.eof()
			for _, d := range rows.Data {
				b := make([]byte, 1+(len(d)+9)/8)
				for i, v := range d {
					if v == nil {
						b[1+(i+2)/8] |= 1 << ((i + 2) % 8)
					}
				}
				for _, v := range d {
					if v != nil {
						b = append(b, lstr(fmt.Sprint(v))...)
					}
				}
				m.send(b)
			}
			m.eof()
		case 0x19:
			continue // no answer
		default:
			return fmt.Errorf("unexpected command %d", p[0])
		}
		if err := m.w.Flush(); err != nil {
			return io.EOF
		}
	}
}
