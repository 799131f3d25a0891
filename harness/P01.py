"""Every public name can be imported first and in any order."""
import sym

ORIGINS = {'segeval.agreement': ['actual_agreement_linear'],
           'segeval.agreement.bias': ['artstein_poesio_bias_linear'],
           'segeval.agreement.kappa': ['fleiss_kappa_linear'], 'segeval.agreement.pi': ['fleiss_pi_linear'],
           'segeval.data': ['Dataset', 'load_nested_folders_dict'],
           'segeval.data.jsonutils': ['Field', 'input_linear_mass_json', 'output_linear_mass_json'],
           'segeval.data.tsv': ['input_linear_mass_tsv'],
           'segeval.data.samples': ['KAZANTSEVA2012_G5', 'KAZANTSEVA2012_G2', 'COMPLETE_AGREEMENT', 'LARGE_DISAGREEMENT',
                                    'HEARST_1997_STARGAZER', 'HYPOTHESIS_STARGAZER'],
           'segeval.ml': ['Average', 'precision', 'recall', 'fmeasure', 'ConfusionMatrix'],
           'segeval.similarity': ['boundary_confusion_matrix', 'boundary_statistics'],
           'segeval.similarity.boundary': ['boundary_similarity'],
           'segeval.similarity.segmentation': ['segmentation_similarity'],
           'segeval.similarity.distance.multipleboundary': ['boundary_edit_distance'],
           'segeval.similarity.weight': ['weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale'],
           'segeval.window': ['compute_window_size'], 'segeval.window.pk': ['pk'],
           'segeval.window.windowdiff': ['window_diff'], 'segeval.compute': ['summarize'],
           'segeval.format': ['BoundaryFormat', 'boundary_string_from_masses', 'convert_positions_to_masses',
                              'convert_masses_to_positions', 'convert_nltk_to_masses']}
QUICK = [{'first': 'attribute', 'fresh': True}, {'first': 'from', 'fresh': True}, {'first': 'module', 'fresh': True},
         {'fn': 'two', 'how': ['attribute', 'attribute'], 'fresh': True}, {'fn': 'two', 'how': ['module', 'from'], 'fresh': True},
         {'fn': 'listed', 'fresh': True}]
THOROUGH = [{'fn': 'two', 'how': ['from', 'module'], 'fresh': True}, {'fn': 'two', 'how': ['attribute', 'from'], 'fresh': True},
            {'fn': 'two', 'how': ['module', 'module'], 'fresh': True}]


def get(how, module, name):
    """The public object, in one of the ways a user has."""
    if how == 'attribute':
        import segeval
        return getattr(segeval, name)
    if how == 'from':
        return getattr(__import__('segeval', None, None, [name]), name)
    return getattr(__import__(module, None, None, [name]), name)


def main():
    """Each name first, then all the others."""
    p = sym.param
    names = [(m, n) for m in ORIGINS for n in ORIGINS[m]]
    k = sym.fork(sym.choice('first', list(range(len(names)))))
    got = {}
    module, name = names[k]
    got[name] = get(p['first'], module, name)
    for x in range(1, len(names)):
        module, name = names[(k + x) % len(names)]
        got[name] = get('attribute', module, name)
    for module, name in names:
        held = get('module', module, name)
        sym.check(got[name] is held, 'the object of its module')
        sym.check(held is not None, 'an object')
        sym.check(get('attribute', module, name) is held, 'again')


def two():
    """Any two modules' names, in any order."""
    p = sym.param
    modules = list(ORIGINS)
    names = list(range(len(modules)))
    a, b = sym.fork(sym.choice('a', names)), sym.fork(sym.choice('b', names))
    one = get(p['how'][0], modules[a], ORIGINS[modules[a]][-1])
    other = get(p['how'][1], modules[b], ORIGINS[modules[b]][-1])
    sym.check(one is get('module', modules[a], ORIGINS[modules[a]][-1]), 'the object of its module')
    sym.check(other is get('attribute', modules[b], ORIGINS[modules[b]][-1]), 'the object of its module')


def listed():
    """The names the package lists are its public names, and there are no others."""
    import segeval
    names = [n for m in ORIGINS for n in ORIGINS[m]]
    for n in names:
        sym.check(n in segeval.__all__ and n in dir(segeval), 'listed')
    name = sym.fork(sym.choice('name', ['unknown', 'boundary_similarit', '_pk', 'Pk']))
    try:
        getattr(segeval, name)
        failed = False
    except AttributeError:
        failed = True
    sym.check(failed, 'no such name')
    sym.check(not hasattr(segeval, name), 'no such name')
    for n in segeval.__all__:
        sym.check(hasattr(segeval, n), 'listed name')
