require_relative 'core'
RULE = "each case defines types with namespaces, templates, aliases and Ruby equivalents in one or two registries, exports them into Ruby modules with and without filters, and follows random paths " \
       "of methods, template arguments and constants (also unknown and misspelt ones) while types are added; what each path gives is compared with a model of the names. " \
       "Non-trivial: at least two types were reached below the first level; distinct by the paths."

class Case
    def initialize(ctx); @c, @r = ctx, ctx.rng end

    NAMESPACES = %w{ns NS my_space MySpace deepNs std_like Outer x1}
    TYPES = %w{custom_type CustomType Thing_t thing_T CamelCaseT with_Mixed_caseT y2 Z3 value_of_x}
    # a name, with the method and arguments that it can also be reached by
    Name = Struct.new(:text, :method, :args)

    # one exported registry
    class World
        attr_reader :reg, :names, :parts, :root, :filter, :converted
        attr_accessor :epoch
        def initialize(reg, root)
            @reg, @root, @names, @parts, @converted = reg, root, {}, {}, {}
        end
        def start(filter) @filter = filter end
        def types_below(prefix) names.keys.select { |n| n.start_with?(prefix) } end
    end

    def part(w, pool)
        base = @r.pick(pool)
        return Name.new(base, base, []) unless @r.chance(1, 4)
        args = Array.new(@r.range(1, 2)) do
            case @r.below(4)
            when 0 then @r.range(-3, 9)
            when 1 then '/int'
            else w.names.empty? ? '/double' : @r.pick(w.names.keys.select { |n| n !~ /[\[*]/ })
            end
        end
        Name.new("#{base}<#{args.join(',')}>", base, args)
    end
    # a path to call a type by
    def new_name(w)
        prefix = '/'
        if !w.names.empty? && @r.chance(2, 3)
            # in a namespace that there is already, or inside a type
            n = @r.pick(w.names.keys)
            if n !~ /[\[*]\z|[\]*]/
                parts = @paths[[w, n]]
                parts = parts[0, @r.range(0, parts.size)] if parts
            end
        end
        parts ||= Array.new(@r.below(3)) { part(w, NAMESPACES) }
        parts += [part(w, TYPES)]
        name = '/' + parts.map(&:text).join('/')
        return if w.names.key?(name)
        [name, parts]
    end
    def define(w)
        name, parts = new_name(w)
        return unless name
        begin
            t = case @r.below(6)
                when 0 then w.reg.create_enum(name) { |e| e.A = 1; e.B = 4 }
                when 1 then w.reg.create_numeric(name, 4, :sint)
                when 2 then w.reg.create_opaque(name, 8)
                else w.reg.create_compound(name) { |b| b.fld = '/int' }
                end
        rescue ArgumentError, RuntimeError => e
            @c.fail('refused', "#{name} cannot be defined: #{e.message}")
        end
        know(w, name, t, parts)
        if t <= Typelib::CompoundType && @r.chance(1, 4)
            k = Class.new { def initialize(*) end }
            t.convert_to_ruby(k) { |v| k.new }
            w.converted[t] = k
        end
        if @r.chance(1, 6)
            # a derived type
            d = case @r.below(3)
                when 0 then w.reg.build("#{name}*")
                when 1 then w.reg.build("#{name}[3]")
                else w.reg.create_container('/std/vector', t) unless t <= Typelib::OpaqueType
                end
            if d
                v = d <= Typelib::ContainerType
                know(w, d.name, d, v ? [Name.new('std', 'std', []), Name.new(d.name[5..-1], 'vector', [name])] : parts[0..-2] + [Name.new(parts[-1].text + d.name[name.size..-1], nil, [])])
            end
        end
        @c.step("define #{name}")
    end
    def know(w, name, t, parts)
        w.names[name] = t
        @paths[[w, name]] = parts
    end
    def new_alias(w)
        return if w.names.empty?
        target = @r.pick(w.names.keys.select { |n| n !~ /[\[*]/ && !n.start_with?('/std/vector<') }) or return
        name, parts = new_name(w)
        return unless name
        @c.step("alias #{name} -> #{target}")
        w.reg.alias(name, target)
        know(w, name, w.names[target], parts)
        # the names of what is derived from the type follow
        w.reg.each(with_aliases: true) do |n, t|
            next if w.names.key?(n) || !n.include?(name)
            @others[[w, n]] = t
        end
        w.names[name] = w.names[w.names[target].name]
    end

    # ---- the model
    Type = Struct.new(:type, :object) # what was reached
    Space = Struct.new(:object)
    def exists(w, name); w.names.key?(name) || @others.key?([w, name]) end
    def at(w, name); w.names[name] || @others[[w, name]] end
    def all_names(w); w.names.keys + @others.keys.select { |x, _| x.equal?(w) }.map(&:last) end

    # what the name of a type gives: [:is, object] or [:converted, ruby class] or [:none]
    def exported(w, t)
        conv = t.convertion_to_ruby && t.convertion_to_ruby[0]
        given = conv || t
        if w.filter
            f = w.filter.call(t, given, true)
            return [:none] if f.nil?
            return [:raises] if f == :foreign
            if !f.equal?(given) && f.kind_of?(Class) && f <= Typelib::Type && f.convertion_to_ruby && f.convertion_to_ruby[0]
                f = f.convertion_to_ruby[0]
            end
            given = f
        end
        given.kind_of?(Class) && given <= Typelib::Type ? [:is, given] : [:converted, given]
    end

    # candidates of what one step leads to
    def by_method(w, prefix, text)
        return [prefix + text] if exists(w, prefix + text)
        :space if all_names(w).any? { |n| n.start_with?(prefix + text + '/') }
    end
    def by_constant(w, prefix, const)
        cands = [const, const.snakecase, const.camelcase]
        cands.each { |x| return [prefix + x] if exists(w, prefix + x) }
        same = all_names(w).select { |n| n.start_with?(prefix) && n[prefix.size..-1] !~ /\// && n[prefix.size..-1].snakecase == const.snakecase }
        real = same.select { |n| at(w, n).name == n }
        return real unless real.empty?
        return :open unless same.empty? # aliases need not be found by similar names
        cands.each { |x| return [:space, [x]] if all_names(w).any? { |n| n.start_with?(prefix + x + '/') } }
        spaces = all_names(w).select { |n| n.start_with?(prefix) && at(w, n).name == n }.map { |n| Typelib.split_typename(n) }.
            map { |p| p[Typelib.split_typename(prefix).size, 2] }.select { |p| p.size == 2 && p[0].snakecase == const.snakecase }.map(&:first).uniq
        return [:space, spaces] unless spaces.empty?
        any = all_names(w).any? { |n| n.start_with?(prefix) && (Typelib.split_typename(n)[Typelib.split_typename(prefix).size] || '').snakecase == const.snakecase }
        any ? :open : nil
    end

    def constant_for(text)
        s = text.snakecase
        parts = s.split('_')
        c = case @r.below(4)
            when 0 then text
            when 1 then parts.map(&:capitalize).join
            when 2 then parts.map(&:capitalize).join('_')
            else parts.map { |p| @r.chance(1, 2) ? p.capitalize : p }.join('_').sub(/\A./) { |x| x.upcase }
            end
        c =~ /\A[A-Z]\w*\z/ && c.snakecase == s ? c : nil
    end

    def random_path(w)
        parts = @paths[@r.pick(@paths.keys.select { |x, _| x.equal?(w) })]
        parts = parts.dup
        case @r.below(8)
        when 0 then parts = parts[0, @r.range(1, parts.size)]
        when 1
            i = @r.below(parts.size)
            parts[i] = part(w, NAMESPACES + TYPES + %w{unknown Nothing t*})
        when 2 then parts += [part(w, TYPES)]
        end
        parts
    end

    # follows the path; every step is checked
    def follow(w)
        return if @paths.empty?
        parts = random_path(w)
        constants = @r.chance(2, 5)
        obj, prefix, texts = w.root, '/', []
        parts.each do |p|
            if constants
                return unless obj.kind_of?(Module)
                const = constant_for(p.text) or return
                texts << "::#{const}"
                expect = by_constant(w, prefix, const)
                @c.step("#{w.epoch} #{texts.join}")
                got, e = attempt { obj.const_get(const, false) }
            else
                args = p.args.map { |a| a.kind_of?(String) && w.reg.include?(a) && @r.chance(1, 2) ? w.reg.get(a) : a }
                # the canonical name of a type given by an alias is another name
                args = p.args if args.map { |a| a.respond_to?(:name) ? a.name : a } != p.args
                call = p.method && @r.chance(2, 3) ? [p.method, *args] : [p.text]
                texts << ".#{call.map { |x| x.respond_to?(:name) ? x.name : x }.inspect}"
                expect = by_method(w, prefix, p.text)
                @c.step("#{w.epoch} #{texts.join}")
                got, e = attempt { obj.public_send(*call) }
            end
            return if expect == :open
            # constants that were found keep their meaning
            if constants && expect && expect[0] != :space
                seen = (@seen[[w, w.epoch, prefix, const]] ||= [])
                expect |= seen
                seen.concat(expect - seen)
            end
            what = texts.join
            if expect.nil?
                @c.ck(e && (e.kind_of?(Typelib::RegistryExport::NotFound) || !constants && e.kind_of?(NoMethodError)), 'unknown') { "#{what} gave #{e ? e.class : got.inspect} although there is no such type" }
                @c.count('unknown paths')
                return
            end
            if expect == :space || expect[0] == :space
                @c.ck(!e, 'namespace') { "the namespace #{what} raised #{e.class}: #{e.message}" }
                names = expect == :space ? [p.text] : expect[1]
                @c.ck(got.kind_of?(Typelib::RegistryExport::Namespace), 'namespace') { "#{what} is #{got.inspect} instead of a namespace" }
                x = names.find { |n| got.__typelib_registry_export_typename_prefix == "#{prefix}#{n}/" }
                @c.ck(x, 'namespace-which') { "#{what} is the namespace #{got}" }
                prefix = "#{prefix}#{x}/"
                @c.count('namespaces reached')
            else
                found = nil
                results = expect.map { |n| exported(w, at(w, n)) }
                results.each_with_index { |(kind, x), i| found ||= i if kind == :none ? e : kind == :raises ? e : !e && is?(kind, x, got) }
                if results.any? { |k, _| k == :none || k == :raises }
                    # a namespace of the same name may be given instead
                    return if expect.size > 1 || all_names(w).any? { |n| n.start_with?(prefix) && n[prefix.size..-1].include?('/') && Typelib.split_typename(n)[Typelib.split_typename(prefix).size].to_s.snakecase == Typelib.split_typename(expect[0])[-1].snakecase }
                    if results[0][0] == :none
                        @c.ck(e && (e.kind_of?(Typelib::RegistryExport::NotFound) || !constants && e.kind_of?(NoMethodError)), 'refused') { "#{what}, which the filter refuses, gave #{e ? e.class : got.inspect}" }
                        @c.count('types refused by the filter')
                    else
                        @c.ck(e, 'foreign') { "#{what} gave a type of another registry" }
                    end
                    return
                end
                @c.ck(found, 'type') { "#{what} #{e ? "raised #{e.class}: #{e.message}" : "is #{got.inspect}"} instead of #{results.inspect}" }
                t = at(w, expect[found])
                @c.count(results[found][0] == :is ? 'types reached' : 'Ruby classes reached')
                @reached += 1 if texts.size > 1
                @history << what
                # what is inside is named after the type
                return if results[found][0] == :is && !results[found][1].equal?(t)
                prefix = "#{t.name}/"
            end
            obj = got
        end
    end
    def attempt
        [yield, nil]
    rescue CaseFailed
        raise
    rescue StandardError, SystemStackError => e
        [nil, e]
    end
    def is?(kind, expected, got)
        return got.equal?(expected) if kind == :is
        return false unless got == expected
        made, e = attempt { got.new }
        made2, e2 = attempt { expected.new }
        e2 ? e : made.kind_of?(expected)
    end

    # types are refused, replaced by a wrapper, their Ruby equivalent or a type of another registry, or left
    def filter(w)
        return if @r.chance(1, 2)
        salt = @r.below(1 << 30)
        wrapper = @wrapper ||= {}
        wrapper[w] ||= begin
            t = w.reg.create_compound('/Wrapper') { |b| b.fld = '/int' }
            u = w.reg.create_compound('/ConvertedWrapper') { |b| b.fld = '/int' }
            k = Class.new
            u.convert_to_ruby(k) { |v| k.new }
            [t, u]
        end
        foreign = @foreign ||= Typelib::CXXRegistry.new.create_compound('/Foreign') { |b| b.fld = '/int' }
        calls = @c
        ruby = @ruby ||= Class.new
        lambda do |type, given, model = false|
            calls.count('filter calls') unless model
            case Rng.new(Core.mix(salt, Zlib.crc32(type.name))).below(10)
            when 0 then nil
            when 1 then type
            when 2 then wrapper[w][0]
            when 3 then wrapper[w][1]
            when 4 then ruby
            when 5 then model ? :foreign : foreign
            else given
            end
        end
    end
    def export(w)
        w.start(filter(w))
        f = w.filter
        w.epoch = "export #{@exports = (@exports || 0) + 1}"
        @c.step("#{w.epoch}#{' with a filter' if f}")
        f ? w.reg.export_to_ruby(w.root) { |a, b| f.call(a, b) } : w.reg.export_to_ruby(w.root)
    end
    def world(i)
        reg = Typelib::CXXRegistry.new
        root = @r.chance(1, 2) ? Module.new : Typelib::RegistryExport::Namespace.new
        if @r.chance(1, 3)
            # named modules
            Object.send(:remove_const, "Exported#{i}") if Object.const_defined?("Exported#{i}")
            Object.const_set("Exported#{i}", root)
        end
        w = World.new(reg, root)
        export(w) if @r.chance(1, 2)
        w
    end

    def self.setup(_); Typelib.logger.level = Logger::FATAL end
    def run
        @paths, @others, @history, @reached, @seen = {}, {}, [], 0, {}
        worlds = Array.new(@r.range(1, 2)) { |i| world(i) }
        worlds.each { |w| @r.range(3, 8).times { define(w) } }
        worlds.each { |w| export(w) }
        @r.range(10, @c.thorough ? 60 : 30).times do
            w = @r.pick(worlds)
            case @r.below(12)
            when 0..1 then define(w)
            when 2 then new_alias(w)
            when 3 then export(w) if @r.chance(1, 2)
            else follow(w)
            end
        end
        @c.sig(@history.join(' ')) if @reached >= 2
        @c.sample(@history.first(12).join(' '))
    end
end
Core.main(RULE, Case)
