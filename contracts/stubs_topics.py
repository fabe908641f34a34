"""Topic validation and matching, as uninterpreted functions of their strings in the contracts of their callers."""
import z3
from pydv.spec import stub
from pydv.core import StrSort, Rope
from pydv import ropes

MATCH = z3.Function('topic_matches', StrSort, StrSort, z3.BoolSort())


def str_term(v):
    return ropes.sterm(v) if isinstance(v, (str, Rope)) and ropes.kind_of(v) == 's' else None


def matches(ip, args, kwargs):
    if kwargs or len(args) < 2 or all(isinstance(a, str) for a in args[:2]):
        return NotImplemented
    f, t = str_term(args[0]), str_term(args[1])
    if f is None or t is None:
        return NotImplemented
    return ropes.boolv(MATCH(f, t))


def valid(ip, args, kwargs):
    """callers' contracts only mention valid names"""
    return NotImplemented if isinstance(args[0], str) else True


BY = ['topic_matching_follows_the_level_rules']
BYV = ['topic_names_are_accepted_exactly_when_valid']
for v in ('V5', 'V311'):
    stub('mqtt.brokers.%s.Topics.topicMatches' % v, BY)(matches)
    stub('mqtt.brokers.%s.Topics.isValidTopicName' % v, BYV)(valid)
stub('contracts.topics.matches')(matches)
stub('contracts.topics.matches3')(matches)
T5 = ['mqtt.brokers.V5.Topics.topicMatches', 'mqtt.brokers.V5.Topics.isValidTopicName', 'contracts.topics.matches']
T3 = ['mqtt.brokers.V311.Topics.topicMatches', 'mqtt.brokers.V311.Topics.isValidTopicName', 'contracts.topics.matches3']
