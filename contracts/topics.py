"""What topic names, filters and matching mean (MQTT 5 section 4.7)."""

SHARE = '$share/'
TOPICS = ['a', 'b', 'a/b', 'a/c', 'b/a', 'a/b/c', '/a', 'a/', 'a/b/', '$SYS/a', '$x', 'test', '$share/g/a']
FILTERS = TOPICS[:-1] + ['#', '+', 'a/#', 'a/+', '+/b', '+/+', '/#', '$SYS/#', '$SYS/+', '$share/g/a', '$share/g/a/#', '$share/h/#', '$share/h/+']
CLIENTS = ['A', 'B', 'C', 'D', 'E']


def is_dollar(name):
    """$ names, in a table of their own; shared filters belong to the ordinary ones"""
    return name.startswith('$') != name.startswith(SHARE)


def matches(filter, topic):
    """a filter or shared filter, in MQTT 5"""
    if filter.startswith(SHARE):
        if filter.count('/') < 2:
            return False
        filter = filter.split('/', 2)[2]
    return matches3(filter, topic)


def matches3(filter, topic):
    """level by level"""
    f, t = filter.split('/'), topic.split('/')
    i = 0
    while i < len(f):
        if f[i] == '#':
            return True
        if i >= len(t):
            return False
        if f[i] == '+':
            if t[i] == '':
                return False
        elif f[i] != t[i]:
            return False
        i += 1
    return len(f) == len(t)


def valid(name):
    if not 1 <= len(name) <= 65535:
        return False
    levels = name.split('/')
    for i in range(len(levels)):
        if ('+' in levels[i] or '#' in levels[i]) and len(levels[i]) > 1:
            return False
        if levels[i] == '#' and i < len(levels) - 1:
            return False
    return True
