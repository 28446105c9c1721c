package msk

import (
	"context"
	"crypto/tls"
	"errors"

	"github.com/aws/aws-sdk-go-v2/aws"
	"github.com/aws/aws-sdk-go-v2/service/kafka"
	"github.com/aws/aws-sdk-go-v2/service/kafka/types"
	"github.com/twmb/franz-go/pkg/kgo"
)

var vpErrList, vpErrBoot, vpErrCred = errors.New("list"), errors.New("boot"), errors.New("cred")

type vpMsk struct {
	name        string
	lists       int
	boots       int
	failList    bool
	failBoot    bool
	clusters    []types.ClusterInfo
	out         *kafka.GetBootstrapBrokersOutput
	arn         string
}

func (m *vpMsk) ListClusters(ctx context.Context, in *kafka.ListClustersInput, _ ...func(*kafka.Options)) (*kafka.ListClustersOutput, error) {
	m.lists++
	vpVerify(in.ClusterNameFilter != nil && *in.ClusterNameFilter == m.name, "the cluster is looked up under another name")
	if m.failList {
		return nil, vpErrList
	}
	return &kafka.ListClustersOutput{ClusterInfoList: m.clusters}, nil
}

func (m *vpMsk) GetBootstrapBrokers(ctx context.Context, in *kafka.GetBootstrapBrokersInput, _ ...func(*kafka.Options)) (*kafka.GetBootstrapBrokersOutput, error) {
	m.boots++
	vpVerify(in.ClusterArn != nil && *in.ClusterArn == m.arn, "the brokers of another cluster are looked up")
	if m.failBoot {
		return nil, vpErrBoot
	}
	return m.out, nil
}

// a broker string of one or two brokers of 1..2 arbitrary bytes, and its parts; or nil
func vpBrokers() (*string, []string) {
	n := vpChoose(3)
	if n == 0 {
		return nil, nil
	}
	var parts []string
	s := ""
	for i := 0; i < n; i++ {
		p := vpString(1 + vpChoose(2))
		for j := 0; j < len(p); j++ {
			vpAssume(p[j] != ',')
		}
		if i > 0 {
			s += ","
		}
		s += p
		parts = append(parts, p)
	}
	return &s, parts
}

func vpStr(s string) *string { return &s }

var vpAuths = []AuthType{None, MutualTLS, SaslScram, SaslIam, PublicMutualTLS, PublicSaslScram, PublicSaslIam}

// the published list of each auth type is distinguishable; the one chosen is arbitrary or missing
func vpOutput(at AuthType, own *string) *kafka.GetBootstrapBrokersOutput {
	o := &kafka.GetBootstrapBrokersOutput{
		BootstrapBrokerString:                 vpStr("plain"),
		BootstrapBrokerStringTls:              vpStr("tls"),
		BootstrapBrokerStringSaslScram:        vpStr("scram"),
		BootstrapBrokerStringSaslIam:          vpStr("iam"),
		BootstrapBrokerStringPublicTls:        vpStr("ptls"),
		BootstrapBrokerStringPublicSaslScram:  vpStr("pscram"),
		BootstrapBrokerStringPublicSaslIam:    vpStr("piam"),
	}
	if vpChoose(2) == 1 {
		// only this one is published
		*o = kafka.GetBootstrapBrokersOutput{}
	}
	switch at {
	case MutualTLS:
		o.BootstrapBrokerStringTls = own
	case SaslScram:
		o.BootstrapBrokerStringSaslScram = own
	case SaslIam:
		o.BootstrapBrokerStringSaslIam = own
	case PublicMutualTLS:
		o.BootstrapBrokerStringPublicTls = own
	case PublicSaslScram:
		o.BootstrapBrokerStringPublicSaslScram = own
	case PublicSaslIam:
		o.BootstrapBrokerStringPublicSaslIam = own
	default:
		o.BootstrapBrokerString = own
	}
	return o
}

// every auth type, 0..2 arbitrary brokers of 1..2 bytes or none published, every failure of either call on each of two attempts,
// with and without TLS, credentials and client options
//vp:harness prop=C33
func vpH_C33_config() {
	at := vpAuths[vpChoose(len(vpAuths))]
	m := &vpMsk{name: "mine", arn: "arn:mine"}
	c := &MskCluster{clusterName: "mine", authType: at, client: m}
	var tc *tls.Config
	if vpChoose(2) == 1 {
		tc = &tls.Config{ServerName: "x"}
		c.WithTlsConfig(tc)
	}
	if at == SaslScram || at == PublicSaslScram {
		c.WithScramUserPass("u", "p")
	}
	user := vpChoose(2) == 1
	if user {
		c.WithClientOptions(kgo.VerifTag("old"))
		c.WithClientOptions(kgo.SeedBrokers("users", "own"), kgo.VerifTag("user"))
	}
	for attempt := 0; attempt < 2; attempt++ {
		m.lists, m.boots = 0, 0
		m.failList, m.failBoot = vpChoose(2) == 1, false
		m.clusters = nil
		arn := true
		if !m.failList {
			switch vpChoose(3) {
			case 0: // not found
			case 1:
				m.clusters = []types.ClusterInfo{{ClusterName: vpStr("mine"), ClusterArn: vpStr("arn:mine")}}
			case 2:
				m.clusters = []types.ClusterInfo{{ClusterName: vpStr("mine")}}
				arn = false
			}
		}
		var own *string
		var parts []string
		if len(m.clusters) > 0 && arn {
			m.failBoot = vpChoose(2) == 1
			own, parts = vpBrokers()
			m.out = vpOutput(at, own)
		}
		opts, err := c.Config()
		vpVerify(m.lists == 1, "the cluster is not looked up exactly once")
		switch {
		case m.failList:
			vpVerify(err == vpErrList, "the error of the cluster lookup is lost")
		case len(m.clusters) == 0 || !arn:
			vpVerify(err != nil, "a missing cluster or address is not an error")
		case m.failBoot:
			vpVerify(err == vpErrBoot, "the error of the broker lookup is lost")
		case own == nil:
			vpVerify(err != nil, "a missing broker list is not an error")
		default:
			vpVerify(err == nil, "Config fails although everything was found")
			vpVerify(m.boots == 1, "the brokers are not looked up exactly once")
			vpCheckCfg(kgo.VerifApply(opts...), at, parts, tc, user)
			// later clients reuse what was found
			opts, err = c.Config()
			vpVerify(err == nil && m.lists == 1 && m.boots == 1, "a second Config looks the cluster up again")
			vpCheckCfg(kgo.VerifApply(opts...), at, parts, tc, user)
			vpReach("configured")
			return
		}
		vpVerify(len(opts) == 0, "options are returned with an error")
	}
	vpReach("failed")
}

func vpCheckCfg(v kgo.VerifCfg, at AuthType, parts []string, tc *tls.Config, user bool) {
	if user {
		vpVerify(len(v.Tags) == 1 && v.Tags[0] == "user", "the user's options are not applied exactly once, the last ones given")
		vpVerify(len(v.SeedBrokers) == 2 && v.SeedBrokers[0] == "users", "the user's own options do not come last")
	} else {
		vpVerify(len(v.SeedBrokers) == len(parts), "the number of brokers is not the published one")
		for i := range parts {
			vpVerify(v.SeedBrokers[i] == parts[i], "a broker is not the published one")
		}
	}
	vpVerify(v.TLS == tc, "the TLS settings are not the given ones")
	switch at {
	case SaslIam, PublicSaslIam:
		vpVerify(len(v.Sasls) == 1 && v.Sasls[0].Name() == "AWS_MSK_IAM", "IAM authentication is not configured")
	case SaslScram, PublicSaslScram:
		vpVerify(len(v.Sasls) == 1 && v.Sasls[0].Name() == "SCRAM-SHA-512", "SCRAM authentication is not configured")
	default:
		vpVerify(len(v.Sasls) == 0, "authentication is configured that was not asked for")
	}
}

// the name filter of the API is a prefix: up to 3 clusters with arbitrary 1..2 byte extensions of the name, in any order
//vp:harness prop=C33
func vpH_C33_prefix() {
	m := &vpMsk{name: "mine"}
	c := &MskCluster{clusterName: "mine", client: m}
	n := 1 + vpChoose(3)
	own := vpChoose(n + 1)
	for i := 0; i < n; i++ {
		if i == own {
			m.clusters = append(m.clusters, types.ClusterInfo{ClusterName: vpStr("mine"), ClusterArn: vpStr("arn:mine")})
		} else {
			m.clusters = append(m.clusters, types.ClusterInfo{ClusterName: vpStr("mine" + vpString(1+vpChoose(2))), ClusterArn: vpStr("arn:other")})
		}
	}
	m.arn = "arn:mine"
	m.out = &kafka.GetBootstrapBrokersOutput{BootstrapBrokerString: vpStr("b")}
	_, err := c.Config()
	if own == n {
		vpVerify(err != nil && m.boots == 0, "another cluster, whose name starts with the configured one, is used")
		vpReach("missing")
		return
	}
	vpVerify(err == nil && m.boots == 1, "the cluster is not found among those whose name starts with its own")
	vpReach("found")
}

type vpProvider struct {
	creds aws.Credentials
	fail  bool
	n     int
}

func (p *vpProvider) Retrieve(context.Context) (aws.Credentials, error) {
	p.n++
	if p.fail {
		return aws.Credentials{}, vpErrCred
	}
	return p.creds, nil
}

// IAM authentication: any credentials of 0..2 bytes, retrieval succeeding or failing, on each of two authentications
//vp:harness prop=C33
func vpH_C33_iam() {
	p := &vpProvider{}
	c := &MskCluster{clusterName: "mine", authType: SaslIam, awsConfig: aws.Config{Credentials: p}}
	for i := 0; i < 2; i++ {
		p.creds = aws.Credentials{AccessKeyID: vpString(vpChoose(3)), SecretAccessKey: vpString(vpChoose(3)), SessionToken: vpString(vpChoose(3))}
		p.fail = vpChoose(2) == 1
		a, err := c.saslIamAuth(context.Background())
		vpVerify(p.n == i+1, "the credentials are not retrieved for each authentication")
		if p.fail {
			vpVerify(err == vpErrCred, "the retrieval error is lost")
			vpVerify(a.AccessKey == "" && a.SecretKey == "" && a.SessionToken == "", "credentials are passed on with an error")
		} else {
			vpVerify(err == nil, "authentication fails although the credentials were retrieved")
			vpVerify(a.AccessKey == p.creds.AccessKeyID && a.SecretKey == p.creds.SecretAccessKey && a.SessionToken == p.creds.SessionToken, "the credentials passed on are not those retrieved")
		}
	}
	vpReach("iam")
}
