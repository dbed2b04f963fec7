package party

import "github.com/DyCAPSTeam/DyCAPS/internal/bls"

// What the harness of the command-line program sees of the members its processes make.

var (
	MCOnMember func(p *HonestParty)
	MCOnClient func(s bls.Fr)
)

func MCMember(p *HonestParty) {
	if MCOnMember != nil {
		MCOnMember(p)
	}
}

func MCClient(_ *Client, s bls.Fr) {
	if MCOnClient != nil {
		MCOnClient(s)
	}
}

func (p *HonestParty) MCShares() (full, reduced []bls.Fr) { return p.fullShare, p.reducedShare }

// MCCommitments are the recorded commitments to B(x,j), j from 1.
func (p *HonestParty) MCCommitments() (l []string) {
	for j := range p.Proof.PiContents {
		if j > 0 {
			l = append(l, string(bls.ToCompressedG1(&p.Proof.PiContents[j].CBj)))
		}
	}
	return
}
