require_relative 'core'
RULE = "each case declares conversions and methods for some of the types it is about to define (by name, by element or container, by regular expression, with conditions, or directly on a type), " \
       "defines nested types, and works on values of them: each value reached in any way must be what the declarations make of it and have exactly the methods declared for it, " \
       "assignments and changes made to converted objects must end up in the value. Non-trivial: at least one conversion applies; distinct by types, declarations and values."

# What declared conversions make of a value
class Wrap
    attr_accessor :plain
    def initialize(plain); @plain = plain end
    def dup; self.class.new(Wrap.deep(plain)) end
    def ==(other); other.class == self.class && other.plain == plain end
    def inspect; "<#{plain.inspect}>" end
    alias to_s inspect
    def self.deep(v)
        case v
        when Hash then v.map { |k, x| [k, deep(x)] }.to_h
        when Array then v.map { |x| deep(x) }
        else v
        end
    end
end

S = Struct.new(:kind, :name, :elem, :n, :fields, :syms, :to, :froms, :specs, :models) do
    def nested?; [:struct, :array, :vector].include?(kind) end
    # are there conversions in it
    def contains?
        return true if to
        case kind
        when :array, :vector then elem.contains?
        when :struct then fields.values.any?(&:contains?)
        end
    end
    # does it become something else
    def converted?; to || ([:array, :vector].include?(kind) && elem.contains?) end
    def to_s
        d = case kind
            when :struct then "{#{fields.map { |n, f| "#{n}:#{f}" }.join(',')}}"
            when :enum then '(' + syms.keys.join('|') + ')'
            else ''
            end
        name + d + (to ? "=>#{to.id}" : '')
    end
end

Decl = Struct.new(:id, :what, :matcher, :cond, :klass, :source) do
    def matches?(s, case_prefix)
        ok = case matcher
             when Regexp then matcher =~ s.name
             when /\[\]\z/ then s.kind == :array && s.elem.name == matcher[0..-3]
             when /<>\z/ then s.kind == :vector && "/std/vector" == matcher[0..-3]
             else s.name == matcher
             end
        ok && s.name.include?(case_prefix) && (!cond || cond.call(s.name))
    end
    def to_s; "#{id} #{what} #{matcher.inspect}#{cond ? ' if' : ''}" end
end

class Case
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    # ---- plans
    FIELDS = %w{a b1 pos time data_x Val k}
    def plan
        @shapes = []
        @ns = "/w#{@c.idx}"
        @n = 0
        # roots of the dependency order first
        @r.range(2, 3).times { |i| @shapes << S.new(:num, "#{@ns}/N#{i}") }
        @r.range(1, 2).times { |i| @shapes << S.new(:enum, "#{@ns}/E#{i}", nil, nil, nil, (1..@r.range(1, 4)).map { |k| ["S#{k}".to_sym, k * 7 - 9] }.to_h) }
        @r.range(3, 7).times { |i| composite(i) }
    end
    def composite(i)
        case @r.below(5)
        when 0..2
            names = @r.shuffle(FIELDS).first(@r.range(1, 4))
            @shapes << S.new(:struct, "#{@ns}/C#{i}", nil, nil, names.map { |n| [n, member] }.to_h)
        when 3
            e = member
            n = @r.range(1, 4)
            s = S.new(:array, "#{e.name}[#{n}]", e, n)
            @shapes << s unless known(s.name)
        when 4
            e = member
            s = S.new(:vector, "/std/vector<#{e.name}>", e)
            @shapes << s unless known(s.name)
        end
    end
    def known(name); @shapes.find { |s| s.name == name } end
    # rather what has been planned last
    def member; @r.chance(2, 3) ? @shapes[-1 - @r.below([3, @shapes.size].min)] : @r.pick(@shapes) end

    # ---- declarations
    def matcher(s)
        options = [s.name, s.name]
        options << "#{s.elem.name}[]" if s.kind == :array
        options << "/std/vector<>" if s.kind == :vector
        options << /\A#{Regexp.quote(s.name)}\z/ << /\A#{Regexp.quote(@ns)}\/#{s.name[/\A#{@ns}\/([A-Z])/, 1] || 'C'}\d\z/
        @r.pick(options)
    end
    def condition(m)
        ns = @ns
        # what is declared for a container must not reach the other cases' types
        return lambda { |name| name.include?(ns) } if m.kind_of?(String) && m.end_with?('<>')
        case @r.below(4)
        when 0 then k = @r.below(2); lambda { |name| name.sum % 2 == k }
        else nil
        end
    end
    def declare
        @decls = []
        @r.range(1, 5).times do
            s = @r.pick(@shapes)
            m = matcher(s)
            cond = condition(m)
            what = @r.pick([:to, :to, :to, :from, :from, :spec, :model])
            d = Decl.new(@decls.size, what, m, cond, Class.new(Wrap))
            hit = @shapes.select { |x| d.matches?(x, @ns) }
            next if what == :to && hit.any?(&:to)
            case what
            when :to
                # what is read can be written
                hit.each { |x| x.to = d; (x.froms ||= []) << d }
            when :from
                if @r.chance(1, 2) && !hit.empty? && hit.all? { |x| [:array, :vector].include?(x.kind) }
                    d.klass = Array
                    next if hit.any? { |x| (x.froms || []).any? { |o| o.klass == Array } }
                end
                hit.each { |x| (x.froms ||= []) << d }
            when :spec then hit.each { |x| (x.specs ||= []) << d }
            when :model then hit.each { |x| (x.models ||= []) << d }
            end
            @decls << d
        end
        @shapes.each { |s| s.froms ||= []; s.specs ||= []; s.models ||= [] }
        @decls.each do |d|
            # some are made on the type itself
            d.source = d.matcher.kind_of?(String) && d.matcher !~ /\[\]\z|<>\z/ && !d.cond && (d.what == :to || d.what == :from) && d.klass != Array && @r.chance(1, 3) ? :type : :global
        end
        @c.step(@decls.map { |d| "#{d}#{d.source == :type ? ' (type)' : ''}" }.join(', '))
    end
    def options(d)
        return {} unless d.cond
        cond = d.cond
        seen = @seen_by_conditions
        { if: lambda { |t| seen << t; cond.call(t.name) } }
    end
    def to_block(d)
        me = self
        lambda { |v| me.wrapped(d, v) }
    end
    def from_block(d)
        me = self
        lambda { |v, t| me.unwrapped(d, v, t) }
    end
    def apply_globally(d)
        case d.what
        when :to
            if d.cond && @r.chance(1, 2)
                Typelib.convert_to_ruby(d.matcher, options(d), &to_block(d))
            else
                args = @r.chance(1, 2) || d.cond ? [d.klass] : []
                args << options(d) if d.cond
                Typelib.convert_to_ruby(d.matcher, *args, &to_block(d))
            end
            Typelib.convert_from_ruby(d.klass, d.matcher, options(d), &from_block(d))
        when :from
            Typelib.convert_from_ruby(d.klass, d.matcher, options(d), &from_block(d))
        when :spec
            id = d.id
            Typelib.specialize(d.matcher, options(d)) do
                define_method("spec_#{id}") { [id, self.class.name, self] }
                # the type of a field
                sub = self['a'] rescue nil
                define_method("field_type_#{id}") { sub.name }
            end
        when :model
            id = d.id
            Typelib.specialize_model(d.matcher, options(d)) do
                define_method("model_#{id}") { [id, name] }
            end
        end
    end
    def apply_to_type(t, s)
        @decls.each do |d|
            next unless d.source == :type && d.matcher == s.name
            t.convert_to_ruby(@r.chance(1, 2) ? d.klass : nil, &to_block(d)) if d.what == :to
            t.convert_from_ruby(d.klass, &from_block(d))
        end
    end
    TABLES = [:value_specializations, :type_specializations, :convertions_from_ruby, :convertions_to_ruby]
    SETS = [:from_typename, :from_array_basename, :from_container_basename, :from_regexp]
    def self.setup(_ctx); @tables = nil end
    def save
        @saved = TABLES.map { |t| SETS.map { |s| Typelib.send(t).send(s).map { |k, v| [k, v.dup] }.to_h } }
    end
    def restore
        TABLES.each_with_index { |t, i| SETS.each_with_index { |s, j| Typelib.send(t).send(s).replace(@saved[i][j]) } }
    end

    # ---- conversions
    def shape(t); @by_name[t.name] end
    # called by the bindings
    def wrapped(d, v)
        @c.count('conversions to Ruby')
        @c.ck(v.kind_of?(Typelib::Type), 'to-argument') { "a conversion was given #{v.inspect}, of class #{v.class}" }
        s = shape(v.class)
        @c.ck(s && s.to.equal?(d), 'to-other') { "conversion #{d} was used for a #{v.class.name}" }
        d.klass.new(plain_of(v, s))
    end
    def unwrapped(d, x, t)
        @c.count('conversions from Ruby')
        s = shape(t)
        @c.ck(x.class == d.klass, 'from-argument') { "a conversion from #{d.klass} was given a #{x.class}" }
        @c.ck(s && s.froms.any? { |o| o.equal?(d) }, 'from-other') { "conversion #{d} was used for a #{t.name}" }
        # a declared conversion from arrays
        if d.klass == Array
            @arrays += 1
            v = build(t, s, x.map { |e| plain_given(e, s.elem) })
            return v
        end
        build(t, s, x.plain)
    end
    # the plain form of what is given to us
    def plain_given(x, s)
        case x
        when Wrap then x.plain
        when Typelib::Type then plain_of(x, s)
        when Hash then x.map { |k, e| [k.to_s, plain_given(e, s.fields[k.to_s])] }.to_h
        when Array then s.kind == :struct ? s.fields.keys.zip(x).map { |f, e| [f, plain_given(e, s.fields[f])] }.to_h : x.map { |e| plain_given(e, s.elem) }
        when String then x.to_sym
        else s.kind == :enum && x.kind_of?(Integer) ? s.syms.key(x) : x
        end
    end
    def plain_of(v, s)
        case s.kind
        when :num then v.to_byte_array.unpack1('l')
        when :enum then s.syms.key(v.to_byte_array.unpack1('l'))
        when :struct then s.fields.map { |f, t| [f, plain_of(v.raw_get(f), t)] }.to_h
        else v.raw_each.map { |x| plain_of(x, s.elem) }
        end
    end
    def build(t, s, plain)
        case s.kind
        when :num then t.wrap([plain].pack('l'))
        when :enum then t.wrap([s.syms[plain]].pack('l'))
        when :struct
            v = t.new
            plain.each { |f, x| v.raw_set(f, build(t[f], s.fields[f], x)) }
            v
        when :array
            v = t.new
            plain.each_with_index { |x, i| v.raw_set(i, build(t.deference, s.elem, x)) }
            v
        when :vector
            v = t.new
            plain.each { |x| v.push(build(t.deference, s.elem, x)) }
            v
        end
    end

    # ---- values
    def random(s)
        case s.kind
        when :num then @r.chance(1, 2) ? @r.range(-5, 5) : @r.range(-2**31, 2**31 - 1)
        when :enum then @r.pick(s.syms.keys)
        when :struct then s.fields.map { |f, t| [f, random(t)] }.to_h
        when :array then Array.new(s.n) { random(s.elem) }
        when :vector then Array.new(@r.pick([0, 1, 2, 3, 6])) { random(s.elem) }
        end
    end
    # an object that a value of this type can be set from
    def give(s, plain)
        case @r.below(8)
        when 0 then return build(@types[s.name], s, plain)
        when 1 then return build(other_type(s), s, plain)
        when 2..4
            ds = s.froms.reject { |d| d.klass == Array }
            return @r.pick(ds).klass.new(Wrap.deep(plain)) unless ds.empty?
        end
        case s.kind
        when :num then plain
        when :enum then @r.pick([plain, plain.to_s, s.syms[plain]])
        when :struct then plain.map { |f, x| [@r.chance(1, 2) ? f : f.to_sym, give(s.fields[f], x)] }.to_h
        else
            @given_arrays << s if s.froms.any? { |d| d.klass == Array }
            plain.map { |x| give(s.elem, x) }
        end
    end
    # what reading gives
    def presented(s, plain)
        if s.to then s.to.klass.new(Wrap.deep(plain))
        elsif s.converted? then plain.map { |x| presented(s.elem, x) }
        elsif s.nested? then build(@types[s.name], s, plain)
        else plain
        end
    end
    def other_type(s)
        if !@other
            @other = Typelib::Registry.from_xml(@reg.to_xml)
            # what is declared on the types of one registry is unknown to the other
            @other_ok = @decls.none? { |d| d.source == :type }
        end
        return @types[s.name] unless @other_ok
        @other.build(s.name)
    end

    # ---- checks
    def describe(x); x.kind_of?(Typelib::Type) ? "#{x.class}" : "#{x.class} #{x.inspect}" end
    # got is what access to a value of this type gives
    def check(got, s, plain, key, path)
        if s.to
            @c.ck(got.class == s.to.klass, "#{key}-class") { "#{path}: #{describe(got)} instead of what conversion #{s.to} gives for #{plain.inspect}" }
            @c.ck(got.plain == plain, "#{key}-converted") { "#{path}: #{got.inspect} instead of #{plain.inspect}" }
            @c.count('converted values seen')
        elsif s.converted?
            @c.ck(got.kind_of?(Array), "#{key}-class") { "#{path}: #{describe(got)} instead of an array of converted elements" }
            @c.ck(got.size == plain.size, "#{key}-size") { "#{path}: #{got.size} elements instead of #{plain.size}" }
            plain.each_with_index { |x, i| check(got[i], s.elem, x, key, "#{path}[#{i}]") }
        elsif s.nested?
            @c.ck(got.kind_of?(Typelib::Type) && got.class.name == s.name, "#{key}-class") { "#{path}: #{describe(got)} instead of a #{s.name}" }
            inside(got, s, plain, key, path)
        else
            @c.ck(got.class == plain.class && got == plain, "#{key}-scalar") { "#{path}: #{describe(got)} instead of #{plain.inspect}" }
        end
    end
    # a Typelib value of this type, whatever it converts to
    def inside(v, s, plain, key, path)
        methods(v, s, path)
        case s.kind
        when :struct
            s.fields.each do |f, t|
                how = @r.below(5)
                x = case how
                    when 0 then v.get(f)
                    when 1 then v[f]
                    when 2 then v.get_field(f)
                    when 3 then v.send(f)
                    when 4 then v.each_field.find { |n, _| n == f }[1]
                    end
                check(x, t, plain[f], "#{key}-field", "#{path}.#{f}<#{how}>")
            end
        when :array
            how = @r.below(4)
            xs = case how
                 when 0 then v.to_a
                 when 1 then Array.new(s.n) { |i| v[i] }
                 when 2 then v[0, s.n]
                 when 3 then v.each.map { |x| x }
                 end
            plain.each_with_index { |x, i| check(xs[i], s.elem, x, "#{key}-element", "#{path}[#{i}]<#{how}>") }
        when :vector
            how = @r.below(4)
            xs = case how
                 when 0 then v.to_a
                 when 1 then Array.new(v.size) { |i| v[i] }
                 when 2 then v.each.map { |x| x }
                 when 3 then Array.new(v.size) { |i| v.get(i) }
                 end
            @c.ck(xs.size == plain.size, "#{key}-size") { "#{path}: #{xs.size} elements instead of #{plain.size}" }
            plain.each_with_index { |x, i| check(xs[i], s.elem, x, "#{key}-element", "#{path}[#{i}]<#{how}>") }
        end
    end
    def raw_check(v, s, plain, key, path)
        @c.ck(v.kind_of?(Typelib::Type) && v.class.name == s.name, "#{key}-raw-class") { "#{path}: raw access gave #{describe(v)} instead of a #{s.name}" }
        methods(v, s, path)
        case s.kind
        when :struct then s.fields.each { |f, t| raw_check(@r.chance(1, 2) ? v.raw_get(f) : v.send("raw_#{f}"), t, plain[f], key, "#{path}.raw_#{f}") }
        when :array, :vector
            xs = @r.chance(1, 2) ? v.raw_each.to_a : Array.new(plain.size) { |i| v.raw_get(i) }
            @c.ck(xs.size == plain.size, "#{key}-raw-size") { "#{path}: #{xs.size} elements instead of #{plain.size}" }
            plain.each_with_index { |x, i| raw_check(xs[i], s.elem, x, key, "#{path}.raw(#{i})") }
        else
            got = plain_of(v, s)
            @c.ck(got == plain, "#{key}-raw") { "#{path}: #{got.inspect} instead of #{plain.inspect}" }
        end
    end
    # has the methods that are declared for its type, and no other
    def methods(v, s, path)
        @decls.each do |d|
            next unless d.what == :spec
            m = "spec_#{d.id}"
            if s.specs.include?(d)
                @c.ck(v.respond_to?(m), 'method-missing') { "#{path}: values of #{s.name} do not have the methods of #{d}" }
                got = v.send(m)
                @c.ck(got[0] == d.id && got[1] == s.name && got[2].equal?(v), 'method') { "#{path}: #{m} returned #{got.inspect}" }
                @c.count('declared methods called')
                if s.kind == :struct && s.fields['a'] && d.matcher.kind_of?(String)
                    got = v.send("field_type_#{d.id}")
                    @c.ck(got == s.fields['a'].name, 'method-field') { "self['a'] in the declaration for #{s.name} is #{got}" }
                end
            else
                @c.ck(!v.respond_to?(m), 'method-other') { "#{path}: values of #{s.name} have the methods of #{d}" }
            end
        end
        type_methods(v.class, s)
    end
    def type_methods(t, s)
        @decls.each do |d|
            next unless d.what == :model
            m = "model_#{d.id}"
            if s.models.include?(d)
                @c.ck(t.respond_to?(m) && t.send(m) == [d.id, s.name], 'type-method-missing') { "#{s.name} does not have the methods of #{d}" }
            else
                @c.ck(!t.respond_to?(m), 'type-method-other') { "#{s.name} has the methods of #{d}" }
            end
        end
    end

    # ---- changes
    def apply(v)
        v.apply_changes_from_converted_types
        v.invalidate_changes_from_converted_types
    end
    def change(v, s, plain, path)
        case s.kind
        when :struct
            f, t = @r.pick(s.fields.to_a)
            if t.to && @r.chance(1, 3)
                w = v.send(f)
                x = random(t)
                @c.step("#{path}.#{f} changed in place to #{x.inspect}")
                @c.ck(w.class == t.to.klass, 'field-class') { "#{path}.#{f}: #{describe(w)} instead of what conversion #{t.to} gives" }
                w.plain = Wrap.deep(x)
                plain[f] = x
                @c.count('changed in place')
            elsif !t.to && t.nested? && @r.chance(1, 2)
                change(v.send(f), t, plain[f], "#{path}.#{f}")
            elsif @r.chance(1, 8)
                @c.step("#{path}.#{f} = nil")
                e = raised { @r.chance(1, 2) ? v.set(f, nil) : v.send("#{f}=", nil) }
                @c.ck(e, 'nil') { "#{path}.#{f}, a #{t}, was set to nil" }
                @c.ck(e.kind_of?(TypeError) || e.kind_of?(ArgumentError), 'nil-exception') { "setting #{path}.#{f}, a #{t}, to nil raised #{e.class}: #{e.message}" }
            else
                x = random(t)
                g = give(t, x)
                way = @r.below(6)
                @c.step("#{path}.#{f} = #{g.inspect} [#{way}]")
                counting_arrays(t, g, way == 2) do
                    case way
                    when 0 then v.set(f, g)
                    when 1 then v[f] = g
                    when 2
                        v.send("#{f}=", g)
                        # the field is the object itself until it is applied
                        apply(v) if t.converted? && !(t.to && g.class == t.to.klass)
                    when 3 then v.set_hash(f => g)
                    when 4 then v.set_field(f, g)
                    when 5 then v.raw_set(f, build(@types[t.name], t, x))
                    end
                end if way != 5
                v.raw_set(f, build(@types[t.name], t, x)) if way == 5
                plain[f] = x
                # what it was copied from changes
                if g.kind_of?(Typelib::Type) && @r.chance(1, 2)
                    @c.step("(its source changes)")
                    Typelib.copy(g, build(g.class, t, random(t)))
                end
            end
        when :array
            i = @r.below(plain.size)
            if v.kind_of?(Typelib::Type) && !s.elem.converted? && s.elem.nested? && @r.chance(1, 2)
                return change(v[i], s.elem, plain[i], "#{path}[#{i}]")
            end
            return in_array(v, i, s.elem, plain, path) if v.kind_of?(Array)
            x = random(s.elem)
            g = give(s.elem, x)
            @c.step("#{path}[#{i}] = #{g.inspect}")
            v[i] = g
            plain[i] = x
        when :vector
            i = @r.below(plain.size)
            if v.kind_of?(Array)
                if plain.empty? || @r.chance(1, 4)
                    x = random(s.elem)
                    @c.step("#{path} << #{x.inspect}")
                    v << presented(s.elem, x)
                    plain << x
                else in_array(v, i, s.elem, plain, path)
                end
                return
            end
            if !plain.empty? && !s.elem.converted? && s.elem.nested? && @r.chance(1, 2)
                return change(v[i], s.elem, plain[i], "#{path}[#{i}]")
            end
            xs = Array.new(@r.range(1, 3)) { random(s.elem) }
            gs = xs.map { |x| give(s.elem, x) }
            case @r.below(5)
            when 0
                @c.step("#{path}.push #{gs.inspect}")
                v.push(*gs)
                plain.concat(xs)
            when 1
                @c.step("#{path}.concat #{gs.inspect}")
                v.concat(gs)
                plain.concat(xs)
            when 2
                return if plain.empty?
                @c.step("#{path}[#{i}] = #{gs[0].inspect}")
                v[i] = gs[0]
                plain[i] = xs[0]
            when 3
                k = @r.range(2, 3)
                n = 0
                @c.step("#{path}.delete_if")
                me = self
                v.delete_if { |e| me.check(e, s.elem, plain[n], 'delete-if', "#{path}.delete_if"); n += 1; n % k == 0 }
                @c.ck(n == plain.size, 'delete-if') { "delete_if went through #{n} of #{plain.size} elements" }
                j = 0
                plain.delete_if { j += 1; j % k == 0 }
            when 4
                return if plain.empty?
                @c.step("#{path}.erase #{plain[i].inspect}")
                x = Wrap.deep(plain[i])
                r = v.erase(give(s.elem, x))
                @c.ck(r == true, 'erase') { "erasing #{x.inspect} from #{plain.inspect} returned #{r.inspect}" }
                plain.delete_at(plain.index(x))
            end
        end
    end
    # an element of the Ruby array that a field converts to
    def in_array(v, i, elem, plain, path)
        if elem.to && @r.chance(1, 2)
            x = random(elem)
            @c.step("#{path}[#{i}] changed in place to #{x.inspect}")
            @c.ck(v[i].class == elem.to.klass, 'element-class') { "#{path}[#{i}]: #{describe(v[i])} instead of what conversion #{elem.to} gives" }
            v[i].plain = Wrap.deep(x)
            plain[i] = x
            @c.count('changed in place')
        elsif !elem.to && elem.nested? && @r.chance(2, 3)
            change(v[i], elem, plain[i], "#{path}[#{i}]")
        else
            x = random(elem)
            @c.step("#{path}[#{i}] = #{x.inspect} (in an array)")
            v[i] = presented(elem, x)
            plain[i] = x
        end
    end
    # a declared conversion from arrays is used when an array is given
    def counting_arrays(t, g, later)
        n = @arrays
        yield
        if !later && g.class == Array && t.froms.any? { |d| d.klass == Array }
            @c.ck(@arrays > n, 'from-array', "the conversion from arrays declared for #{t.name} was not used")
            @c.count('conversions from arrays')
        end
    end

    def verify(v, s, plain, key)
        how = @r.below(9)
        case how
        when 0 then check(v.to_ruby, s, plain, "#{key}-to_ruby", 'to_ruby')
        when 1 then check(Typelib.to_ruby(v), s, plain, "#{key}-to_ruby", 'to_ruby')
        when 2 then apply(v); raw_check(v, s, plain, key, 'value')
        when 3
            w = v.dup
            raw_check(w, s, plain, "#{key}-dup", 'copy')
            inside(w, s, plain, "#{key}-dup", 'copy')
            @c.ck(v == w, "#{key}-dup-equal", 'a value differs from its copy')
        when 4 then inside(@types[s.name].wrap(v.to_byte_array), s, plain, "#{key}-reloaded", 'reloaded')
        when 5
            t = other_type(s)
            w = t.new
            Typelib.copy(w, v)
            inside(w, s, plain, "#{key}-other", 'value in another registry')
            raw_check(w, s, plain, "#{key}-other", 'value in another registry')
            type_methods(t, s)
        when 6
            w = @types[s.name].new(v.to_ruby)
            raw_check(w, s, plain, "#{key}-back", 'made from what it converts to')
        when 7
            if s.to
                @c.ck(v == s.to.klass.new(Wrap.deep(plain)), "#{key}-equal", "the value differs from what it converts to")
            end
        end
        inside(v, s, plain, key, 'value')
        @c.count("verified #{how}")
    end

    def run
        plan
        @seen_by_conditions, @given_arrays, @arrays = [], [], 0
        @c.desc('')
        save
        declare
        @c.step(@shapes.join(' '))
        @by_name = @shapes.map { |s| [s.name, s] }.to_h
        global, direct = @decls.partition { |d| d.source == :global }
        global.each { |d| apply_globally(d) }
        define
        @shapes.each { |s| type_methods(@types[s.name], s) }
        roots = @shapes.select(&:nested?)
        s = roots.reverse.find(&:contains?) && @r.chance(3, 4) ? @r.pick(roots.select(&:contains?)) : @r.pick(roots)
        return unless s
        plain = random(s)
        g = give(s, plain)
        @c.step("#{s.name}.new #{g.inspect}")
        v = @types[s.name].new(g)
        verify(v, s, plain, 'new')
        @r.range(2, @c.thorough ? 14 : 8).times do
            change(v, s, plain, 'v')
            verify(v, s, plain, 'changed') if @r.chance(3, 4)
        end
        raw_check_applied(v, s, plain)
        @seen_by_conditions.each { |t| @c.ck(t.kind_of?(Class) && t < Typelib::Type, 'condition', "a condition was given #{t.inspect}") }
        @c.count('conditions evaluated', @seen_by_conditions.size)
        @c.sig("#{@shapes.join(' ')} #{@decls.join(' ')} #{plain}") if @shapes.any?(&:to)
        @c.sample("#{s} = #{plain.inspect} with #{@decls.join(', ')}")
    ensure
        restore
    end
    def raw_check_applied(v, s, plain)
        apply(v)
        raw_check(v, s, plain, 'final', 'value')
    end
    def define
        nums = @shapes.select { |s| s.kind == :num }
        xml = "<?xml version=\"1.0\"?>\n<typelib>\n" + nums.map { |s| "<numeric name=\"#{s.name}\" category=\"sint\" size=\"4\" />\n" }.join + "</typelib>"
        @reg = Typelib::Registry.from_xml(xml)
        @types = {}
        @shapes.each do |s|
            t = case s.kind
                when :num then @reg.get(s.name)
                when :enum then @reg.create_enum(s.name, 4) { |b| s.syms.each { |n, x| b.add(n.to_s, x) } }
                when :struct then @reg.create_compound(s.name) { |b| s.fields.each { |f, e| b.add(f, @types[e.name]) } }
                when :array then @reg.create_array(@types[s.elem.name], s.n)
                when :vector then @reg.create_container('/std/vector', @types[s.elem.name])
                end
            @c.ck(t.name == s.name, 'name', "#{s.name} is named #{t.name}")
            apply_to_type(t, s)
            @types[s.name] = t
        end
    end
end
Core.main(RULE, Case)
