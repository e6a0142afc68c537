package msk

import (
	"context"
	"errors"
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/kafka"
	"github.com/aws/aws-sdk-go-v2/service/kafka/types"
	"github.com/twmb/franz-go/pkg/kgo"
)

type c26client struct {
	list    *kafka.ListClustersOutput
	listErr error
	out     *kafka.GetBootstrapBrokersOutput
	outErr  error
	name    *string
	arn     *string
}

func (m *c26client) ListClusters(_ context.Context, in *kafka.ListClustersInput, _ ...func(*kafka.Options)) (*kafka.ListClustersOutput, error) {
	m.name = in.ClusterNameFilter
	return m.list, m.listErr
}
func (m *c26client) GetBootstrapBrokers(_ context.Context, in *kafka.GetBootstrapBrokersInput, _ ...func(*kafka.Options)) (*kafka.GetBootstrapBrokersOutput, error) {
	m.arn = in.ClusterArn
	return m.out, m.outErr
}

type c26creds struct {
	c   aws.Credentials
	err error
}

func (p c26creds) Retrieve(context.Context) (aws.Credentials, error) { return p.c, p.err }

var c26fields = map[AuthType]string{None: "BootstrapBrokerString", MutualTLS: "BootstrapBrokerStringTls", SaslScram: "BootstrapBrokerStringSaslScram", SaslIam: "BootstrapBrokerStringSaslIam",
	PublicMutualTLS: "BootstrapBrokerStringPublicTls", PublicSaslScram: "BootstrapBrokerStringPublicSaslScram", PublicSaslIam: "BootstrapBrokerStringPublicSaslIam"}

// dialed returns the hosts a client built from opts dials first.
func c26dialed(t *testing.T, c *MskCluster, n int) []string {
	got := make(chan string, 64)
	c.WithClientOptions(kgo.Dialer(func(ctx context.Context, network, host string) (net.Conn, error) {
		select {
		case got <- host:
		default:
		}
		return nil, errors.New("no network")
	}))
	opts, err := c.Config()
	if err != nil {
		t.Fatalf("FAILING-INPUT: auth type %d: Config returns %v", c.authType, err)
	}
	cl, err := kgo.NewClient(opts...)
	if err != nil {
		t.Fatalf("FAILING-INPUT: auth type %d: the options are not accepted: %v", c.authType, err)
	}
	defer cl.Close()
	seen := map[string]bool{}
	dl := time.Now().Add(2 * time.Second)
	for len(seen) < n && time.Now().Before(dl) {
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
		cl.Ping(ctx)
		cancel()
		for len(got) > 0 {
			seen[<-got] = true
		}
	}
	var out []string
	for h := range seen {
		out = append(out, h)
	}
	sort.Strings(out)
	return out
}

func TestVerifC26_Brokers(t *testing.T) {
	full := func() *kafka.GetBootstrapBrokersOutput {
		o := &kafka.GetBootstrapBrokersOutput{}
		for i := 0; i < reflect.TypeOf(*o).NumField(); i++ {
			n := reflect.TypeOf(*o).Field(i).Name
			if strings.HasPrefix(n, "BootstrapBrokerString") {
				s := fmt.Sprintf("a-%s:1,b-%s:2,c-%s:3", strings.ToLower(n), strings.ToLower(n), strings.ToLower(n))
				reflect.ValueOf(o).Elem().Field(i).Set(reflect.ValueOf(&s))
			}
		}
		return o
	}
	list := &kafka.ListClustersOutput{ClusterInfoList: []types.ClusterInfo{{ClusterName: aws.String("first"), ClusterArn: aws.String("arn1")}, {ClusterName: aws.String("first2"), ClusterArn: aws.String("arn2")}}}
	mk := func(a AuthType) (*MskCluster, *c26client) {
		m := &c26client{list: list, out: full()}
		return &MskCluster{clusterName: "first", authType: a, client: m, awsConfig: aws.Config{Credentials: c26creds{}}}, m
	}
	for a, f := range c26fields {
		c, m := mk(a)
		l := strings.ToLower(f)
		want := []string{"a-" + l + ":1", "b-" + l + ":2", "c-" + l + ":3"}
		if got := c26dialed(t, c, 3); !reflect.DeepEqual(got, want) {
			t.Fatalf("FAILING-INPUT: auth type %d connects to %v, its broker list is %v", a, got, want)
		}
		if m.name == nil || *m.name != "first" || m.arn == nil || *m.arn != "arn1" {
			t.Fatalf("FAILING-INPUT: auth type %d: MSK was asked for cluster %v, brokers of %v", a, m.name, m.arn)
		}
		again, err := c.Config()
		if err != nil || len(again) != len(c.builtOptions) {
			t.Fatalf("FAILING-INPUT: auth type %d: second Config gives %d options, %v", a, len(again), err)
		}
		// only the other lists are known
		c, m = mk(a)
		reflect.ValueOf(m.out).Elem().FieldByName(f).Set(reflect.Zero(reflect.TypeOf(&f)))
		if o, err := c.Config(); err == nil || len(o) > 0 {
			t.Fatalf("FAILING-INPUT: auth type %d: MSK has no %s but Config returns %d options and error %v", a, f, len(o), err)
		}
		c, m = mk(a)
		m.outErr = errors.New("brokers failed")
		if o, err := c.Config(); err == nil || !strings.Contains(err.Error(), "brokers failed") || len(o) > 0 {
			t.Fatalf("FAILING-INPUT: auth type %d: GetBootstrapBrokers fails but Config returns %d options and error %v", a, len(o), err)
		}
		c, m = mk(a)
		m.listErr = errors.New("list failed")
		if o, err := c.Config(); err == nil || !strings.Contains(err.Error(), "list failed") || len(o) > 0 {
			t.Fatalf("FAILING-INPUT: auth type %d: ListClusters fails but Config returns %d options and error %v", a, len(o), err)
		}
		for _, l := range []*kafka.ListClustersOutput{{}, {ClusterInfoList: []types.ClusterInfo{{ClusterName: aws.String("first")}}}} {
			c, m = mk(a)
			m.list = l
			if o, err := c.Config(); err == nil || len(o) > 0 {
				t.Fatalf("FAILING-INPUT: auth type %d: cluster not found but Config returns %d options and error %v", a, len(o), err)
			}
		}
		c, _ = mk(a)
		o, _ := c.Config()
		want2 := 1
		if a == SaslIam || a == PublicSaslIam || a == SaslScram || a == PublicSaslScram {
			want2 = 2
		}
		if len(o) != want2 {
			t.Fatalf("FAILING-INPUT: auth type %d gives %d options, want %d (brokers and, for SASL, a mechanism)", a, len(o), want2)
		}
	}
}

func TestVerifC26_Credentials(t *testing.T) {
	e := errors.New("no credentials")
	for _, p := range []c26creds{{c: aws.Credentials{AccessKeyID: "a", SecretAccessKey: "s", SessionToken: "t"}}, {c: aws.Credentials{AccessKeyID: "a", SecretAccessKey: "s"}}, {err: e}, {c: aws.Credentials{AccessKeyID: "a", SecretAccessKey: "s", SessionToken: "t"}, err: e}} {
		c := &MskCluster{awsConfig: aws.Config{Credentials: p}}
		auth, err := c.saslIamAuth(context.Background())
		if err != p.err {
			t.Fatalf("FAILING-INPUT: the provider returns error %v, saslIamAuth %v", p.err, err)
		}
		if err == nil && (auth.AccessKey != p.c.AccessKeyID || auth.SecretKey != p.c.SecretAccessKey || auth.SessionToken != p.c.SessionToken) {
			t.Fatalf("FAILING-INPUT: the provider returns %+v, saslIamAuth presents %+v", p.c, auth)
		}
	}
	c := (&MskCluster{}).WithScramUserPass("u", "p")
	if c.scram.User != "u" || c.scram.Pass != "p" {
		t.Fatalf("FAILING-INPUT: user u password p are kept as %+v", c.scram)
	}
}
