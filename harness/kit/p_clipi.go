package verifkit

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"html"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	api "github.com/aws/aws-sdk-go-v2/service/pi"
	ptypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	ards "github.com/aws/aws-sdk-go-v2/service/rds"
	rtypes "github.com/aws/aws-sdk-go-v2/service/rds/types"
)

// awsWire stands in for the AWS endpoints behind an HTTPS proxy: the program
// believes to talk to amazonaws.com.
type awsWire struct {
	lis  net.Listener
	ca   string // PEM
	mu   sync.Mutex
	sim  *PiSim
	seen []awsSeen
	deny bool // refuse the credentials
}

type awsSeen struct{ host, auth, session, what string }

var (
	awsOnce sync.Once
	awsCert tls.Certificate
	awsPEM  string
)

func makeCert() {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	for _, reg := range []string{"us-east-1", "ap-northeast-1", "eu-west-3"} {
		t.DNSNames = append(t.DNSNames, "rds."+reg+".amazonaws.com", "pi."+reg+".amazonaws.com")
	}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	awsCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	awsPEM = string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
}

func serveAWS(sim *PiSim) *awsWire {
	awsOnce.Do(makeCert)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	w := &awsWire{lis: l, ca: awsPEM, sim: sim}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go w.conn(c)
		}
	}()
	return w
}

func (w *awsWire) conn(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	req, err := http.ReadRequest(br)
	if err != nil || req.Method != "CONNECT" {
		return
	}
	fmt.Fprint(c, "HTTP/1.1 200 OK\r\n\r\n")
	t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{awsCert}})
	defer t.Close()
	tb := bufio.NewReader(t)
	for {
		r, err := http.ReadRequest(tb)
		if err != nil {
			return
		}
		body, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		// the client of AWS closes a request's body as soon as it is answered, which
		// cuts the connection when the answer comes before it is done with the body
		time.Sleep(2 * time.Millisecond)
		code, typ, ans := w.answer(r, string(body))
		fmt.Fprintf(t, "HTTP/1.1 %d %s\r\nContent-Type: %s\r\nContent-Length: %d\r\n\r\n%s", code, http.StatusText(code), typ, len(ans), ans)
	}
}

func (w *awsWire) answer(r *http.Request, body string) (int, string, string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	what := r.Header.Get("X-Amz-Target")
	if what == "" {
		v, _ := url.ParseQuery(body)
		what = v.Get("Action")
	}
	w.seen = append(w.seen, awsSeen{r.Host, r.Header.Get("Authorization"), r.Header.Get("X-Amz-Security-Token"), what})
	xmlErr := func(code, msg string) (int, string, string) {
		return 400, "text/xml", "<ErrorResponse><Error><Type>Sender</Type><Code>" + code + "</Code><Message>" + html.EscapeString(msg) + "</Message></Error><RequestId>r</RequestId></ErrorResponse>"
	}
	jsonErr := func(code, msg string) (int, string, string) {
		return 400, "application/x-amz-json-1.1", js(map[string]string{"__type": code, "message": msg})
	}
	switch {
	case what == "DescribeDBInstances":
		if w.deny {
			return xmlErr("InvalidClientTokenId", "The security token included in the request is invalid.")
		}
		v, err := url.ParseQuery(body)
		if err != nil {
			return xmlErr("MalformedInput", err.Error())
		}
		in := &ards.DescribeDBInstancesInput{}
		if m := v.Get("Marker"); m != "" {
			in.Marker = &m
		}
		for i := 1; v.Get(fmt.Sprintf("Filters.Filter.%d.Name", i)) != ""; i++ {
			f := rtypes.Filter{Name: sp(v.Get(fmt.Sprintf("Filters.Filter.%d.Name", i)))}
			for k := 1; v.Get(fmt.Sprintf("Filters.Filter.%d.Values.Value.%d", i, k)) != ""; k++ {
				f.Values = append(f.Values, v.Get(fmt.Sprintf("Filters.Filter.%d.Values.Value.%d", i, k)))
			}
			in.Filters = append(in.Filters, f)
		}
		out, err := w.sim.DescribeDBInstances(nil, in)
		if err != nil {
			return xmlErr("InvalidParameterValue", err.Error())
		}
		var b strings.Builder
		b.WriteString(`<DescribeDBInstancesResponse xmlns="http://rds.amazonaws.com/doc/2014-10-31/"><DescribeDBInstancesResult><DBInstances>`)
		for _, d := range out.DBInstances {
			fmt.Fprintf(&b, "<DBInstance><DBInstanceIdentifier>%s</DBInstanceIdentifier><DbiResourceId>%s</DbiResourceId><Engine>%s</Engine><DBInstanceStatus>%s</DBInstanceStatus></DBInstance>", html.EscapeString(*d.DBInstanceIdentifier), html.EscapeString(*d.DbiResourceId), html.EscapeString(*d.Engine), *d.DBInstanceStatus)
		}
		b.WriteString("</DBInstances>")
		if out.Marker != nil {
			fmt.Fprintf(&b, "<Marker>%s</Marker>", *out.Marker)
		}
		b.WriteString("</DescribeDBInstancesResult><ResponseMetadata><RequestId>r</RequestId></ResponseMetadata></DescribeDBInstancesResponse>")
		return 200, "text/xml", b.String()
	case strings.HasSuffix(what, ".GetResourceMetrics"):
		if w.deny {
			return jsonErr("UnrecognizedClientException", "The security token included in the request is invalid.")
		}
		var q struct {
			ServiceType, Identifier, NextToken string
			StartTime, EndTime                 float64
			PeriodInSeconds                    *int32
			MetricQueries                      []struct {
				Metric  string
				GroupBy *struct {
					Group string
					Limit *int32
				}
			}
		}
		if err := json.Unmarshal([]byte(body), &q); err != nil {
			return jsonErr("InvalidArgumentException", err.Error())
		}
		at := func(f float64) *time.Time { return sp(time.UnixMilli(int64(f*1000 + 0.5)).UTC()) }
		in := &api.GetResourceMetricsInput{Identifier: &q.Identifier, ServiceType: ptypes.ServiceType(q.ServiceType), StartTime: at(q.StartTime), EndTime: at(q.EndTime), PeriodInSeconds: q.PeriodInSeconds}
		if q.NextToken != "" {
			in.NextToken = &q.NextToken
		}
		for _, m := range q.MetricQueries {
			mq := ptypes.MetricQuery{Metric: sp(m.Metric)}
			if m.GroupBy != nil {
				mq.GroupBy = &ptypes.DimensionGroup{Group: sp(m.GroupBy.Group), Limit: m.GroupBy.Limit}
			}
			in.MetricQueries = append(in.MetricQueries, mq)
		}
		out, err := w.sim.GetResourceMetrics(nil, in)
		if err != nil {
			return jsonErr("InvalidArgumentException", err.Error())
		}
		type dp struct {
			Timestamp float64
			Value     *float64 `json:",omitempty"`
		}
		ml := []any{}
		for _, m := range out.MetricList {
			ps := []dp{}
			for _, p := range m.DataPoints {
				ps = append(ps, dp{float64(p.Timestamp.Unix()), p.Value})
			}
			ml = append(ml, map[string]any{"Key": map[string]any{"Metric": m.Key.Metric, "Dimensions": m.Key.Dimensions}, "DataPoints": ps})
		}
		ans := map[string]any{"Identifier": q.Identifier, "AlignedStartTime": q.StartTime, "AlignedEndTime": q.EndTime, "MetricList": ml}
		if out.NextToken != nil {
			ans["NextToken"] = *out.NextToken
		}
		return 200, "application/x-amz-json-1.1", js(ans)
	}
	return 404, "text/plain", "unknown"
}

var reCredential = regexp.MustCompile(`Credential=([^/]*)/\d{8}/([^/]*)/(rds|pi)/aws4_request`)

// cliPI prepares a run of "db dig performance-insights".
func (c *C) cliPI(x *cli, groups *[][]string, opt func(short, long, v string) []string, defect, out, secret *string) (func() int, func(), func()) {
	r := c.R
	startStr, start := piStart(r)
	dflt := chance(r, 0.3)
	if dflt {
		start = time.Now().Add(-7 * 24 * time.Hour).Truncate(time.Second)
	}
	sim := genPi(rand.New(rand.NewSource(r.Int63())), start, false)
	if len(sim.Insts) > 3 {
		sim.Insts = sim.Insts[:3]
	}
	if chance(r, 0.4) {
		sim.PageRDS = 1
	}
	if chance(r, 0.3) {
		sim.PagePI = 1 + r.Intn(4)
	}
	sim.Empty = chance(r, 0.2)
	w := serveAWS(sim)
	ca := filepath.Join(x.dir, "ca.pem")
	if err := os.WriteFile(ca, []byte(w.ca), 0o644); err != nil {
		panic(err)
	}
	region := pick(r, "us-east-1", "ap-northeast-1", "eu-west-3")
	id := fmt.Sprintf("AKIA%012d", r.Intn(1000000))
	sec := fmt.Sprintf("aws+%08d/x%08dy=", r.Intn(100000000), r.Intn(100000000))
	token := pick(r, "", "", "sess10n/token+=")
	x.env["SSL_CERT_FILE"] = ca
	x.env["NO_PROXY"] = ""
	x.env["HTTPS_PROXY"] = "http://" + w.lis.Addr().String()
	if *secret != "" {
		*secret = sec
	}
	switch {
	case chance(r, 0.4): // a profile
		prof := pick(r, "default", "prod", "x y")
		_ = os.MkdirAll(filepath.Join(x.dir, ".aws"), 0o755)
		t := fmt.Sprintf("[%s]\naws_access_key_id = %s\naws_secret_access_key = %s\n", prof, id, sec)
		if token != "" {
			t += "aws_session_token = " + token + "\n"
		}
		creds := filepath.Join(c.Dir, "credentials")
		_ = os.WriteFile(creds, []byte(t), 0o600)
		x.env["AWS_SHARED_CREDENTIALS_FILE"] = creds
		if prof != "default" {
			x.env["AWS_PROFILE"] = prof
		}
		x.env["AWS_REGION"] = region
	default:
		x.env["AWS_ACCESS_KEY_ID"], x.env["AWS_SECRET_ACCESS_KEY"] = id, sec
		if token != "" {
			x.env["AWS_SESSION_TOKEN"] = token
		}
		x.env["AWS_REGION"] = region
	}
	if !dflt {
		*groups = append(*groups, opt("", "start-from", startStr))
	}
	sim.describe(c, map[bool]string{true: "default", false: startStr}[dflt])
	n := 0
	for _, i := range sim.Insts {
		if i.engine == "mysql" {
			n++
		}
	}
	switch *defect {
	case "missing-env":
		k := pick(r, "AWS_REGION", "AWS_ACCESS_KEY_ID")
		if x.env["AWS_ACCESS_KEY_ID"] == "" {
			k = pick(r, "AWS_REGION", "AWS_SHARED_CREDENTIALS_FILE")
		}
		c.Ctx("missing %s", k)
		delete(x.env, k)
	case "missing-flag":
		*out = ""
	case "bad-value":
		var g [][]string
		for _, o := range *groups {
			if !strings.HasPrefix(o[0], "--start-from") {
				g = append(g, o)
			}
		}
		*groups = append(g, []string{"--start-from", pick(r, "yesterday", "2022-01-01", "2022-13-01T00:00:00Z", "1650000000")})
	case "refused":
		x.env["HTTPS_PROXY"] = "http://" + closedPort()
		if !chance(r, 0.1) { // retried for seconds
			*defect = "bad-login"
			w.deny = true
			x.env["HTTPS_PROXY"] = "http://" + w.lis.Addr().String()
		}
	case "bad-login":
		w.deny = true
	case "fault":
		sim.FailAt = 0
		if n > 0 {
			sim.FailAt = r.Intn(1 + 28*n)
		}
	}
	conns := func() int { w.mu.Lock(); defer w.mu.Unlock(); return len(w.seen) }
	ended := func() time.Time { return time.Now() }
	judge := func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, s := range w.seen {
			c.Eval(2)
			m := reCredential.FindStringSubmatch(s.auth)
			if m == nil || m[1] != id || m[2] != region || s.session != token || s.host != m[3]+"."+region+".amazonaws.com" {
				c.Fail("login", "asked %s with %q and token %q, expected key %s of %s and token %q", s.host, cut(s.auth), s.session, id, region, token)
				return
			}
			c.Count("aws_requests", 1)
		}
		lo, hi := time.Time{}, time.Time{}
		for _, l := range sim.Log {
			if l.kind != "pi" {
				continue
			}
			if lo.IsZero() || l.start.Before(lo) {
				lo = l.start
			}
			if l.end.After(hi) {
				hi = l.end
			}
		}
		if n > 0 {
			c.Eval(2)
			slack := 500 * time.Millisecond
			if dflt {
				slack = time.Since(start.Add(7*24*time.Hour)) + 2*time.Second
			}
			if d := lo.Sub(start); d < -slack || d > slack {
				c.Fail("period", "figures were asked for from %s on, expected %s", lo, start)
				return
			}
			if d := hi.Sub(start.Add(7 * 24 * time.Hour)); d < -slack || d > slack {
				c.Fail("period", "figures were asked for until %s, expected seven days after %s", hi, start)
				return
			}
		} else {
			lo = start
		}
		rep, perr := ParseReport(x.out)
		if perr != nil {
			c.Fail("report", "%v", perr)
			return
		}
		if dflt {
			// the hour of the start may have changed since
			if lo.UTC().Truncate(time.Hour) != start.UTC().Truncate(time.Hour) || lo.UTC().Truncate(time.Hour) != ended().Add(-7*24*time.Hour).UTC().Truncate(time.Hour) {
				return
			}
		}
		sim.judgeLoads(c, rep, startStr, start)
	}
	return conns, judge, func() { _ = w.lis.Close() }
}
