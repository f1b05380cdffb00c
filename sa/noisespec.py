"""An independent transcription of the handshake patterns of the Noise specification (revisions 30-32, XXfallback form
of revision 32) and of the "noidh" and "hfs" variants, and what each token means."""

# name: (initiator pre-message, responder pre-message, messages; the initiator sends the first)
BASE = {
    'N':  ('', 's', ['e es']),
    'K':  ('s', 's', ['e es ss']),
    'X':  ('', 's', ['e es s ss']),
    'NN': ('', '', ['e', 'e ee']),
    'NK': ('', 's', ['e es', 'e ee']),
    'NX': ('', '', ['e', 'e ee s es']),
    'XN': ('', '', ['e', 'e ee', 's se']),
    'XK': ('', 's', ['e es', 'e ee', 's se']),
    'XX': ('', '', ['e', 'e ee s es', 's se']),
    'KN': ('s', '', ['e', 'e ee se']),
    'KK': ('s', 's', ['e es ss', 'e ee se']),
    'KX': ('s', '', ['e', 'e ee se s es']),
    'IN': ('', '', ['e s', 'e ee se']),
    'IK': ('', 's', ['e es s ss', 'e ee se']),
    'IX': ('', '', ['e s', 'e ee se s es']),
    # the party that answers the failed message is the initiator; the other one's ephemeral is a pre-message
    'XXfallback': ('', 'e', ['e ee s se', 's es']),
}


def noidh(msgs):
    """static keys are not hidden: in a message that also carries an ephemeral, "s" follows it at once"""
    out = []
    for m in msgs:
        t = m.split()
        if 's' in t and 'e' in t:
            t.remove('s')
            t.insert(t.index('e') + 1, 's')
        out.append(' '.join(t))
    return out


def hfs(msgs):
    """hybrid forward secrecy: "f" accompanies every "e", "ff" every "ee" """
    out = []
    for m in msgs:
        t = []
        for x in m.split():
            t.append(x)
            if x == 'e':
                t.append('f')
            if x == 'ee':
                t.append('ff')
        out.append(' '.join(t))
    return out


def patterns():
    """{(base name, noidh?, hfs?): (pre initiator, pre responder, [token lists])}"""
    out = {}
    for n, (pi, pr, ms) in BASE.items():
        for v in (False, True):
            m1 = noidh(ms) if v else ms
            if v and m1 == ms:
                continue
            for h in (False, True):
                m2 = hfs(m1) if h else m1
                if h and len(n) == 1:
                    continue            # one-way patterns have no hybrid form
                a, b = pi, pr
                if h:
                    a = a.replace('e', 'ef')
                    b = b.replace('e', 'ef')
                out[(n, v, h)] = (a, b, [m.split() for m in m2])
    return out


def messages():
    """distinct message token strings, with whether another message follows it in some pattern"""
    s = set()
    for (a, b, ms) in patterns().values():
        for i, m in enumerate(ms):
            s.add((tuple(m), i + 1 < len(ms)))
    return sorted(s)


# DH token -> (initiator's key, responder's key)
DH = {'ee': ('e', 'e'), 'es': ('e', 's'), 'se': ('s', 'e'), 'ss': ('s', 's'), 'ff': ('f', 'f')}
